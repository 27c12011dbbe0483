u='util.rs'
ref('gt-swap',(u,"        Absolute\n    } else {\n        PathRelative","        PathRelative\n    } else {\n        Absolute"))
ref('gt-regex',(u,r'r"^[A-Za-z0-9\+\-\.]+:/"',r'r"^[A-Za-z\+\-\.]+:/"'))
ref('gt-regex2',(u,r'r"^[A-Za-z0-9\+\-\.]+:/"',r'r"[A-Za-z0-9\+\-\.]+:/"'))
ref('gt-regex3',(u,r'r"^[A-Za-z0-9\+\-\.]+:/"',r'r"^[A-Za-z0-9\+\-\.]+:"'))
ref('gt-noSR',(u,"            return SchemeRelative;","            return PathAbsolute;"))
ref('gt-second',(u,"if second == Some('/')","if second == Some('/') || second.is_none()"))
ref('OK-gt-regex',(u,r'r"^[A-Za-z0-9\+\-\.]+:/"',r'r"^[A-Za-z0-9+.-]+:/"'))
ref('OK-gt-starts',(u,"""    let mut iter = input.chars();
    let first = iter.next();
    let second = iter.next();
    if first == Some('/') {
        if second == Some('/') {
            return SchemeRelative;
        }
        return PathAbsolute;
    }
""","""    if input.starts_with("//") {
        return SchemeRelative;
    }
    if input.starts_with('/') {
        return PathAbsolute;
    }
"""))
ref('OK-gt-match',(u,"""    let mut iter = input.chars();
    let first = iter.next();
    let second = iter.next();
    if first == Some('/') {
        if second == Some('/') {
            return SchemeRelative;
        }
        return PathAbsolute;
    }
    if ABSOLUTE_SCHEME_REGEXP.is_match(input) {
        Absolute
    } else {
        PathRelative
    }
""","""    match input.strip_prefix('/') {
        Some(rest) if rest.starts_with('/') => SchemeRelative,
        Some(_) => PathAbsolute,
        None if ABSOLUTE_SCHEME_REGEXP.is_match(input) => Absolute,
        None => PathRelative,
    }
"""))
ref('sb-one',(u,"let max_dot_parts = input.split(\"..\").count() - 1;","let max_dot_parts = 1;"))
ref('sb-less',(u,"for _ in 0..max_dot_parts {","for _ in 1..max_dot_parts {"))
ref('sb-seg',(u,"""    let segment = build_unique_segment("p", input);""","""    let segment = String::from("p0");"""))
ref('sb-slash',(u,"        base.push('/');\n","" ))
ref('sb-panic',(u,"    let max_dot_parts = input.split(\"..\").count() - 1;","    let max_dot_parts = input.matches(\"../\").count();"))
ref('sb-https',(u,'const PROTOCOL: &str = "http:";','const PROTOCOL: &str = "file:";'))
ref('OK-sb-repeat',(u,"""    let mut base = format!("{}/", *PROTOCOL_AND_HOST);
    for _ in 0..max_dot_parts {
        base.push_str(&segment);
        base.push('/');
    }

    base
""","""    format!("{}/{}", *PROTOCOL_AND_HOST, format!("{}/", segment).repeat(max_dot_parts))
"""))
ref('OK-sb-seg',(u,"""    let mut id = 0;
    loop {
        let ident = format!("{}{}", prefix, id);
        id += 1;
        if !input.contains(ident.as_str()) {
            return ident;
        }
    }
""","""    (0..)
        .map(|id| format!("{}{}", prefix, id))
        .find(|ident| !input.contains(ident.as_str()))
        .unwrap()
"""))
ref('OK-sb-matches',(u,"let max_dot_parts = input.split(\"..\").count() - 1;","let max_dot_parts = input.matches(\"..\").count();"))
ref('cr-noTrail',(u,"if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {\n        root_parts.pop_back();\n    }",""))
ref('cr-always',(u,"if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {","if !root_parts.is_empty() {"))
ref('cr-noquery',(u,"""        relative_path.push('?');
""",""))
ref('cr-fragq',(u,"        relative_path.push('#');","        relative_path.push('?');"))
ref('cr-nohead',(u,"        && target_parts.front().unwrap() == root_parts.front().unwrap()","        && target_parts.len() > 1"))
ref('cr-keep1',(u,"    while !target_parts.is_empty()\n","    while target_parts.len() > 1\n"))
ref('cr-onepop',(u,"        target_parts.pop_front();\n        root_parts.pop_front();","        target_parts.pop_front();\n        root_parts.pop_front();\n        break;"))
ref('cr-err',(u,"_ => return target_url.to_string(),","_ => return root_url.to_string(),"))
ref('cr-dots',(u,'        .map(|_| "..")','        .skip(1)\n        .map(|_| "..")'))
ref('cr-fragnone',(u,"""    if let Some(frag) = target_url.fragment() {""","""    if let (Some(frag), None) = (target_url.fragment(), target_url.query()) {"""))
ref('OK-cr-vec',(u,"""    let mut relative_path: String = root_parts
        .iter()
        .map(|_| "..")
        .chain(target_parts)
        .collect::<Vec<_>>()
        .join("/");
""","""    let mut pieces: Vec<&str> = Vec::new();
    for _ in &root_parts {
        pieces.push("..");
    }
    pieces.extend(target_parts);
    let mut relative_path: String = pieces.join("/");
"""))
ref('OK-cr-match',(u,"""    if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {
        root_parts.pop_back();
    }
""","""    if let Some(last) = root_parts.back() {
        if last.is_empty() {
            root_parts.pop_back();
        }
    }
"""))
ref('OK-cr-whilelet',(u,"""    while !target_parts.is_empty()
        && !root_parts.is_empty()
        && target_parts.front().unwrap() == root_parts.front().unwrap()
    {
        target_parts.pop_front();
        root_parts.pop_front();
    }
""","""    while let (Some(a), Some(b)) = (target_parts.front(), root_parts.front()) {
        if a != b {
            break;
        }
        target_parts.pop_front();
        root_parts.pop_front();
    }
"""))
ref('OK-cr-repeat',(u,"""    let mut relative_path: String = root_parts
        .iter()
        .map(|_| "..")
        .chain(target_parts)
        .collect::<Vec<_>>()
        .join("/");
""","""    let mut relative_path: String = std::iter::repeat("..")
        .take(root_parts.len())
        .chain(target_parts)
        .collect::<Vec<_>>()
        .join("/");
"""))
ref('OK-cr-fmt',(u,"""        relative_path.push('?');
        relative_path.push_str(query);
""","""        relative_path = format!("{}?{}", relative_path, query);
"""))
ref('OK-cr-helper',(u,"""    if let Some(query) = target_url.query() {
        relative_path.push('?');
        relative_path.push_str(query);
    }

    if let Some(frag) = target_url.fragment() {
        relative_path.push('#');
        relative_path.push_str(frag);
    }
    relative_path
}
""","""    append_part(&mut relative_path, '?', target_url.query());
    append_part(&mut relative_path, '#', target_url.fragment());
    relative_path
}

fn append_part(path: &mut String, mark: char, part: Option<&str>) {
    if let Some(part) = part {
        path.push(mark);
        path.push_str(part);
    }
}
"""))
ref('ha-swap',(u,"        SchemeRelative => result.chars().skip(PROTOCOL.len()).collect(),\n            PathAbsolute","        SchemeRelative => result,\n            PathAbsolute"),)
ref('ha-err',(u,"            Err(_) => return input,","            Err(_) => return String::new(),"))
ref('ha-base',(u,"_ => compute_relative_url(base.as_str(), result.as_str()),","_ => compute_relative_url(\"http://host/\", result.as_str()),"))
ref('ha-nocb',(u,"        cb(&mut urlx);\n\n        let result = urlx.to_string();","        let result = urlx.to_string();\n        cb(&mut urlx);"))
ref('OK-ha-iflet',(u,"""        let mut urlx = match urlx.join(input.as_str()) {
            Ok(urlx) => urlx,
            Err(_) => return input,
        };
""","""        let mut urlx = if let Ok(it) = urlx.join(&input) { it } else { return input };
"""))
ref('OK-ha-slice',(u,"        SchemeRelative => result.chars().skip(PROTOCOL.len()).collect(),","        SchemeRelative => result[PROTOCOL.len()..].to_string(),"))
ref('ed-none',(u,"        let path = reg.replace(url.path(), \"/\").to_string();","        let path = reg.replace(url.path(), \"\").to_string();"))
ref('ed-always',(u,"        let path = reg.replace(url.path(), \"/\").to_string();","        let path = format!(\"{}/\", url.path());"))
ref('ed-regex',(u,'Regex::new("/?$").unwrap();','Regex::new("/$").unwrap();'))
ref('OK-ed-ends',(u,"""        // replace(/\\/?$/, "/");
        let reg = Regex::new("/?$").unwrap();

        let path = reg.replace(url.path(), "/").to_string();
        url.set_path(&path);
""","""        if !url.path().ends_with('/') {
            let path = format!("{}/", url.path());
            url.set_path(&path);
        }
"""))
ref('tr-keep',(u,"        if !path.last().unwrap().is_empty() {\n            path.pop();","        if !path.last().unwrap().is_empty() {"))
ref('tr-nopush',(u,"            path.push(\"\");\n",""))
ref('tr-cond',(u,"        if !path.last().unwrap().is_empty() {","        if path.len() > 2 {"))
ref('OK-tr-always',(u,"""        if !path.last().unwrap().is_empty() {
            path.pop();
            path.push("");
        }
""","""        path.pop();
        path.push("");
"""))
ref('OK-tr-last',(u,"""        if !path.last().unwrap().is_empty() {
            path.pop();
            path.push("");
        }

        url.set_path(&path.join("/"));
""","""        if let Some(last) = path.last_mut() {
            *last = "";
        }

        url.set_path(&path.join("/"));
"""))
ref('jn-noens',(u,"    let root = ENSURE_DIRECTORY(root.to_owned());\n","    let root = root.to_owned();\n"))
ref('jn-order',(u,"""    if path_t == SchemeRelative {
        return NORMALIZE(path.to_string());
    }

""",""))
ref('jn-skip',(u,"return join_on_host(root.as_str(), path, PROTOCOL);","return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str());") )
ref('jn-base',(u,"let base = build_safe_base(format!(\"{}{}\", path, root).as_str());","let base = build_safe_base(path);"))
ref('jn-base2',(u,"let base = build_safe_base(format!(\"{}{}\", path, root).as_str());","let base = build_safe_base(root.as_str());"))
ref('jn-pa',(u,"""    if path_t == PathAbsolute {
        return NORMALIZE(path.to_string());
    }
""",""))
ref('jn-new',(u,"        Some(with_base(root.as_str(), Some(base.as_str())).as_str()),\n    );\n    compute","        Some(base.as_str()),\n    );\n    compute"))
ref('jn-abs',(u,"    if path_t == Absolute {\n        return with_base(path, None);","    if path_t == Absolute && root_t != Absolute {\n        return with_base(path, None);"))
ref('OK-jn-lazy',(u,"""    let root = ENSURE_DIRECTORY(root.to_owned());

    if path_t == Absolute {
        return with_base(path, None);
    }
""","""    if path_t == Absolute {
        return with_base(path, None);
    }

    let root = ENSURE_DIRECTORY(root.to_owned());
"""))
ref('OK-jn-base',(u,"let base = build_safe_base(format!(\"{}{}\", path, root).as_str());","let base = build_safe_base(format!(\"{}/{}\", root, path).as_str());"))
ref('OK-jn-match',(u,"""    if path_t == SchemeRelative {
        return NORMALIZE(path.to_string());
    }

    if root_t == SchemeRelative {
        return join_on_host(root.as_str(), path, PROTOCOL);
    }

    if path_t == PathAbsolute {
        return NORMALIZE(path.to_string());
    }

    if root_t == PathAbsolute {
        return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str());
    }
""","""    match (path_t, root_t) {
        (SchemeRelative, _) => return NORMALIZE(path.to_string()),
        (_, SchemeRelative) => return join_on_host(root.as_str(), path, PROTOCOL),
        (PathAbsolute, _) => return NORMALIZE(path.to_string()),
        (_, PathAbsolute) => return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str()),
        _ => {}
    }
"""))
ref('OK-jn-helper',(u,"        Ok(url) => url.as_str().chars().skip(placeholder.len()).collect(),","        Ok(url) => drop_prefix(url.as_str(), placeholder),"),(u,"fn join_on_host(","fn drop_prefix(text: &str, prefix: &str) -> String {\n    text.chars().skip(prefix.len()).collect()\n}\n\nfn join_on_host("))
ref('cs-nofilter',(u,"    let source_root = source_root.filter(|it| !it.is_empty());\n",""))
ref('cs-nofilter2',(u,"    let source_map_url = source_map_url.filter(|it| !it.is_empty());\n",""))
ref('cs-notrim',(u,"            TRIM_FILENAME(source_map_url.to_string()).as_str(),","            source_map_url,"))
ref('cs-all',(u,'source_url.replacen("/", "", 1)','source_url.replace("/", "")'))
ref('cs-noroot',(u,"if source_root.is_some() && get_url_type(source_url) == PathAbsolute {","if get_url_type(source_url) == PathAbsolute {"))
ref('cs-scheme',(u,"if source_root.is_some() && get_url_type(source_url) == PathAbsolute {","if source_root.is_some() && source_url.starts_with('/') {"))
ref('cs-order',(u,"        url = join(source_root, url.as_str());","        url = join(url.as_str(), source_root);"))
ref('cs-nonorm',(u,"let mut url = NORMALIZE(source_url.to_string());","let mut url = source_url.to_string();"))
ref('OK-cs-strip',(u,"""    let mut source_url = source_url;
    let after = source_url.replacen("/", "", 1);

    if source_root.is_some() && get_url_type(source_url) == PathAbsolute {
        // sourceURL = sourceURL.replace(/^\\//, "");
        source_url = after.as_str();
    }
""","""    let source_url = match source_root {
        Some(_) if get_url_type(source_url) == PathAbsolute => &source_url[1..],
        _ => source_url,
    };
"""))
ref('OK-cs-match',(u,"""    if let Some(source_root) = source_root {
        url = join(source_root, url.as_str());
    }
""","""    url = match source_root {
        Some(root) => join(root, &url),
        None => url,
    };
"""))
ref('re-host',(u,"        || target_url.host() != root_url.host()\n",""))
ref('re-port',(u,"        || target_url.port() != root_url.port()\n",""))
ref('re-user',(u,"        || target_url.username() != root_url.username()\n",""))
ref('re-type',(u,"    if url_type != get_url_type(target) {\n        return None;\n    }\n","    let _ = url_type;\n"))
ref('re-none',(u,"        None => NORMALIZE(target),","        None => target,"))
ref('re-base',(u,'let base = build_safe_base(&format!("{}{}", root, target));','let base = build_safe_base(target);'))
ref('re-swap',(u,"Some(compute_relative_url(root_url.as_str(), target_url.as_str()))","Some(compute_relative_url(target_url.as_str(), root_url.as_str()))"))
ref('re-nojoin',(u,"""    match target_url.join("") {
        Ok(_) => {}
        Err(_) => return None,
    };
""",""))
ref('OK-re-hoststr',(u,"        || target_url.host() != root_url.host()\n","        || target_url.host_str() != root_url.host_str()\n"))
ref('OK-re-if',(u,"""    match target_url.join("") {
        Ok(_) => {}
        Err(_) => return None,
    };
""","""    if target_url.join("").is_err() {
        return None;
    }
"""))
ref('OK-re-base',(u,"""    let root_url = Url::parse(&base).unwrap();
    let root_url = root_url.join(root).ok()?;
    let target_url = Url::parse(&base).unwrap();
    let target_url = target_url.join(target).ok()?;
""","""    let base = Url::parse(&base).unwrap();
    let (root_url, target_url) = match (base.join(root), base.join(target)) {
        (Ok(r), Ok(t)) => (r, t),
        _ => return None,
    };
"""))
ref('OK-re-unwrap',(u,"""    match replace_if_possible(root.as_str(), target.as_str()) {
        None => NORMALIZE(target),
        Some(r) => r,
    }
""","""    replace_if_possible(&root, &target).unwrap_or_else(|| NORMALIZE(target))
"""))
ref('OK-re-tuple',(u,"""    if target_url.scheme() != root_url.scheme()
        || target_url.username() != root_url.username()
        || target_url.password() != root_url.password()
        || target_url.host() != root_url.host()
        || target_url.port() != root_url.port()
    {
        return None;
    }
""","""    let authority = |url: &Url| (url.scheme().to_owned(), url.username().to_owned(), url.password().map(|p| p.to_owned()), url.host_str().map(|h| h.to_owned()), url.port());
    if authority(&target_url) != authority(&root_url) {
        return None;
    }
"""))
u='util.rs'
ref('OK-cr-zip',(u,"""    let mut target_parts = target_url.path().split('/').collect::<LinkedList<_>>();
    let mut root_parts = root_url.path().split('/').collect::<LinkedList<_>>();

    if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {
        root_parts.pop_back();
    }

    while !target_parts.is_empty()
        && !root_parts.is_empty()
        && target_parts.front().unwrap() == root_parts.front().unwrap()
    {
        target_parts.pop_front();
        root_parts.pop_front();
    }

    let mut relative_path: String = root_parts
        .iter()
        .map(|_| "..")
        .chain(target_parts)
""","""    let target_parts = target_url.path().split('/').collect::<Vec<_>>();
    let mut root_parts = root_url.path().split('/').collect::<Vec<_>>();

    if root_parts.last().map_or(false, |last| last.is_empty()) {
        root_parts.pop();
    }

    let common = target_parts
        .iter()
        .zip(root_parts.iter())
        .take_while(|(target, root)| target == root)
        .count();

    let mut relative_path: String = root_parts[common..]
        .iter()
        .map(|_| "..")
        .chain(target_parts[common..].iter().copied())
"""))
ref('OK-cr-deque',(u,"use std::collections::LinkedList;","use std::collections::VecDeque;"),(u,"target_url.path().split('/').collect::<LinkedList<_>>()","target_url.path().split('/').collect::<VecDeque<_>>()"),(u,"root_url.path().split('/').collect::<LinkedList<_>>()","root_url.path().split('/').collect::<VecDeque<_>>()"))
ref('OK-cr-idx',(u,"""    let mut target_parts = target_url.path().split('/').collect::<LinkedList<_>>();
    let mut root_parts = root_url.path().split('/').collect::<LinkedList<_>>();

    if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {
        root_parts.pop_back();
    }

    while !target_parts.is_empty()
        && !root_parts.is_empty()
        && target_parts.front().unwrap() == root_parts.front().unwrap()
    {
        target_parts.pop_front();
        root_parts.pop_front();
    }

    let mut relative_path: String = root_parts
        .iter()
        .map(|_| "..")
        .chain(target_parts)
        .collect::<Vec<_>>()
        .join("/");
""","""    let target_parts = target_url.path().split('/').collect::<Vec<_>>();
    let mut root_parts = root_url.path().split('/').collect::<Vec<_>>();

    if let Some(&"") = root_parts.last() {
        root_parts.pop();
    }

    let mut common = 0;
    while common < target_parts.len()
        && common < root_parts.len()
        && target_parts[common] == root_parts[common]
    {
        common += 1;
    }

    let mut parts = vec![".."; root_parts.len() - common];
    parts.extend_from_slice(&target_parts[common..]);
    let mut relative_path = parts.join("/");
"""))
ref('OK-cr-letelse',(u,"""    let (root_url, target_url) = match (Url::parse(root_url), Url::parse(target_url)) {
        (Ok(root_url), Ok(target_url)) => (root_url, target_url),
        _ => return target_url.to_string(),
    };
""","""    let (Ok(root), Ok(parsed)) = (Url::parse(root_url), Url::parse(target_url)) else {
        return target_url.to_owned();
    };
    let (root_url, target_url) = (root, parsed);
"""))
ref('OK-ha-fn',(u,"fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -> String + Sync> {\n    Box::new(move |input: String| -> String {","fn create_safe_handler<F: Fn(&mut Url) + Sync + 'static>(cb: F) -> UtilityFn {\n    Box::new(move |input: String| -> String {"),
 (u,"create_safe_handler(Box::new(|url| {\n        // replace","create_safe_handler(|url: &mut Url| {\n        // replace"),(u,"""        url.set_path(&path);
    }));""","""        url.set_path(&path);
    });"""),(u,"TRIM_FILENAME: UtilityFn = create_safe_handler(Box::new(|url| {","TRIM_FILENAME: UtilityFn = create_safe_handler(|url: &mut Url| {"),(u,"""        url.set_path(&path.join("/"));
    }));""","""        url.set_path(&path.join("/"));
    });"""),(u,"create_safe_handler(Box::new(|_url|{}))","create_safe_handler(|_url: &mut Url| {})"))
ref('OK-ha-plain',(u,"""fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -> String + Sync> {
    Box::new(move |input: String| -> String {
        let t""","""fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -> String + Sync> {
    Box::new(move |input: String| safe_handle(input, &*cb))
}

fn safe_handle(input: String, cb: &dyn Fn(&mut Url)) -> String {
        let t"""),(u,"""            _ => compute_relative_url(base.as_str(), result.as_str()),
        }
    })
}""","""            _ => compute_relative_url(base.as_str(), result.as_str()),
        }
}"""))
ref('OK-ha-strip',(u,"""        match t {
            Absolute => result,
            SchemeRelative => result.chars().skip(PROTOCOL.len()).collect(),
            PathAbsolute => result.chars().skip(PROTOCOL_AND_HOST.len()).collect(),
            _ =>""","""        match t {
            Absolute => result,
            SchemeRelative => result[PROTOCOL.len()..].to_string(),
            PathAbsolute => result[PROTOCOL_AND_HOST.len()..].to_owned(),
            PathRelative =>"""))
ref('OK-sb-rep2',(u,"""    let mut base = format!("{}/", *PROTOCOL_AND_HOST);
    for _ in 0..max_dot_parts {
        base.push_str(&segment);
        base.push('/');
    }

    base
""","""    format!(
        "{}/{}",
        *PROTOCOL_AND_HOST,
        format!("{}/", segment).repeat(max_dot_parts)
    )
"""))
ref('OK-sb-while',(u,"""    for _ in 0..max_dot_parts {
        base.push_str(&segment);
        base.push('/');
    }
""","""    let mut left = max_dot_parts;
    while left > 0 {
        base += &format!("{}/", segment);
        left -= 1;
    }
"""))
ref('OK-sb-fold',(u,"""    let mut base = format!("{}/", *PROTOCOL_AND_HOST);
    for _ in 0..max_dot_parts {
        base.push_str(&segment);
        base.push('/');
    }

    base
""","""    (0..max_dot_parts).fold(format!("{}/", *PROTOCOL_AND_HOST), |base, _| base + &segment + "/")
"""))
ref('OK-sb-segfind',(u,"""    let mut id = 0;
    loop {
        let ident = format!("{}{}", prefix, id);
        id += 1;
        if !input.contains(ident.as_str()) {
            return ident;
        }
    }
""","""    (0..)
        .map(|id| format!("{}{}", prefix, id))
        .find(|ident| !input.contains(ident.as_str()))
        .unwrap()
"""))
ref('OK-tr-rfind',(u,"""        let mut path = path.split('/').collect::<Vec<_>>();

        if !path.last().unwrap().is_empty() {
            path.pop();
            path.push("");
        }

        url.set_path(&path.join("/"));
""","""        let end = path.rfind('/').map_or(0, |slash| slash + 1);
        url.set_path(&path[..end]);
"""))
ref('OK-ed-if',(u,"""        let reg = Regex::new("/?$").unwrap();

        let path = reg.replace(url.path(), "/").to_string();
        url.set_path(&path);
""","""        if !url.path().ends_with('/') {
            let mut path = url.path().to_owned();
            path.push('/');
            url.set_path(&path);
        }
"""))
ref('OK-jn-tuple',(u,"""    if path_t == Absolute {
        return with_base(path, None);
    }

    if root_t == Absolute {
        return with_base(path, Some(root.as_str()));
    }

    if path_t == SchemeRelative {
        return NORMALIZE(path.to_string());
    }

    if root_t == SchemeRelative {
        return join_on_host(root.as_str(), path, PROTOCOL);
    }

    if path_t == PathAbsolute {
        return NORMALIZE(path.to_string());
    }

    if root_t == PathAbsolute {
        return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str());
    }
""","""    match (root_t, path_t) {
        (_, Absolute) => return with_base(path, None),
        (Absolute, _) => return with_base(path, Some(root.as_str())),
        (_, SchemeRelative) => return NORMALIZE(path.to_string()),
        (SchemeRelative, _) => return join_on_host(root.as_str(), path, PROTOCOL),
        (_, PathAbsolute) => return NORMALIZE(path.to_string()),
        (PathAbsolute, _) => return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str()),
        (PathRelative, PathRelative) => {}
    }
"""))
ref('OK-jn-else',(u,"""    match Url::parse(base.as_str()).and_then(|base| base.join(path)) {
        Ok(url) => url.as_str().chars().skip(placeholder.len()).collect(),
        Err(_) => path.to_string(),
    }
""","""    let parsed = match Url::parse(&base) {
        Ok(parsed) => parsed,
        Err(_) => return path.to_string(),
    };
    if let Ok(url) = parsed.join(path) {
        String::from(&url.as_str()[placeholder.len()..])
    } else {
        path.into()
    }
"""))
ref('OK-cs-early',(u,"""    let source_root = source_root.filter(|it| !it.is_empty());
    let source_map_url = source_map_url.filter(|it| !it.is_empty());
    let mut source_url = source_url;
    let after = source_url.replacen("/", "", 1);

    if source_root.is_some() && get_url_type(source_url) == PathAbsolute {
        // sourceURL = sourceURL.replace(/^\\//, "");
        source_url = after.as_str();
    }

    let mut url = NORMALIZE(source_url.to_string());

    if let Some(source_root) = source_root {
        url = join(source_root, url.as_str());
    }
""","""    let source_map_url = source_map_url.filter(|it| !it.is_empty());

    let mut url = match source_root {
        Some(source_root) if !source_root.is_empty() => {
            let source_url = match get_url_type(source_url) {
                PathAbsolute => &source_url[1..],
                _ => source_url,
            };
            join(source_root, &NORMALIZE(source_url.to_string()))
        }
        _ => NORMALIZE(source_url.to_string()),
    };
"""))
ref('OK-cs-fold',(u,"""    let mut url = NORMALIZE(source_url.to_string());

    if let Some(source_root) = source_root {
        url = join(source_root, url.as_str());
    }

    if let Some(source_map_url) = source_map_url {
        url = join(
            TRIM_FILENAME(source_map_url.to_string()).as_str(),
            url.as_str(),
        );
    }

    url
""","""    let url = NORMALIZE(source_url.to_string());
    let url = source_root.map_or(url.clone(), |root| join(root, &url));
    source_map_url
        .map(|map_url| join(&TRIM_FILENAME(map_url.to_string()), &url))
        .unwrap_or(url)
"""))
ref('OK-re-same',(u,"""    if target_url.scheme() != root_url.scheme()
        || target_url.username() != root_url.username()
        || target_url.password() != root_url.password()
        || target_url.host() != root_url.host()
        || target_url.port() != root_url.port()
    {
        return None;
    }

    Some(compute""","""    let same_origin = target_url.scheme() == root_url.scheme()
        && target_url.port() == root_url.port()
        && target_url.host() == root_url.host()
        && target_url.username() == root_url.username()
        && target_url.password() == root_url.password();
    if !same_origin {
        return None;
    }

    Some(compute"""))
ref('OK-re-iserr',(u,"""    match target_url.join("") {
        Ok(_) => {}
        Err(_) => return None,
    };
""","""    if target_url.join("").is_err() {
        return None;
    }
"""))
ref('OK-re-then',(u,"""    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
}

pub fn relative(root: String, target: String) -> String {
    match replace_if_possible(root.as_str(), target.as_str()) {
        None => NORMALIZE(target),
        Some(r) => r,
    }
}""","""    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
}

pub fn relative(root: String, target: String) -> String {
    if let Some(path) = replace_if_possible(&root, &target) {
        return path;
    }
    NORMALIZE(target)
}"""))
ref('OK-wb-q',(u,"""    match base {
        Some(base) => Url::parse(base).and_then(|base| base.join(url)),
        None => Url::parse(url),
    }
    .map_or_else(|_| url.to_string(), |it| it.as_str().to_string())
""","""    let resolved = match base {
        None => Url::parse(url),
        Some(base) => Url::parse(base).and_then(|base| Url::options().base_url(Some(&base)).parse(url)),
    };
    match resolved {
        Ok(it) => it.into(),
        Err(_) => String::from(url),
    }
"""))
