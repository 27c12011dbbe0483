F, A, G, U, M, L, B, V, SM, B64 = 'consumer.rs', 'array_set.rs', 'generator.rs', 'util.rs', 'mapping.rs', 'mapping_list.rs', 'binary_search.rs', 'base64_vlq.rs', 'source_map.rs', 'base64.rs'
ref('OK11-strcmp-ord', (U,'''    if a == b {
        return 0;
    }

    if a.is_none() {
        return 1;
    }

    if b.is_none() {
        return -1;
    }

    if a.unwrap() > b.unwrap() {
        return 1;
    }

    -1
}''','''    use std::cmp::Ordering;
    let order = match (a, b) {
        (None, None) => Ordering::Equal,
        (None, _) => Ordering::Greater,
        (_, None) => Ordering::Less,
        (Some(a), Some(b)) => a.cmp(&b),
    };
    order as i32
}'''))
ref('OK11-cmp-thenwith', (U,'''    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = a.generated.column.cmp(&b.generated.column) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = strcmp''','''    let generated = (a.generated.line, a.generated.column).cmp(&(b.generated.line, b.generated.column));
    if generated.is_ne() {
        return generated as i32;
    }

    let mut cmp = strcmp'''))
ref('OK11-cmp-orig', (U,'''    cmp = a.original.is_none().cmp(&b.original.is_none()) as i32;
    if cmp != 0 {
        return cmp;
    }
    if a.original.is_some() && b.original.is_some() {
        cmp = a
            .original
            .as_ref()
            .unwrap()
            .line
            .cmp(&b.original.as_ref().unwrap().line) as i32;
        if cmp != 0 {
            return cmp;
        }

        cmp = a
            .original
            .as_ref()
            .unwrap()
            .column
            .cmp(&b.original.as_ref().unwrap().column) as i32;
        if cmp != 0 {
            return cmp;
        }
    }

    strcmp(a.name.clone(), b.name.clone())''','''    match (&a.original, &b.original) {
        (Some(x), Some(y)) => {
            for (left, right) in [(x.line, y.line), (x.column, y.column)] {
                if left != right {
                    return if left < right { -1 } else { 1 };
                }
            }
            strcmp(a.name.clone(), b.name.clone())
        }
        (None, None) => strcmp(a.name.clone(), b.name.clone()),
        (None, Some(_)) => 1,
        (Some(_), None) => -1,
    }'''))
ref('OK11-type-bytes', (U,'''    let mut iter = input.chars();
    let first = iter.next();
    let second = iter.next();
    if first == Some('/') {
        if second == Some('/') {
            return SchemeRelative;
        }
        return PathAbsolute;
    }
    if ABSOLUTE_SCHEME_REGEXP.is_match(input) {
        Absolute
    } else {
        PathRelative
    }''','''    match input.strip_prefix('/') {
        Some(rest) if rest.starts_with('/') => SchemeRelative,
        Some(_) => PathAbsolute,
        None if ABSOLUTE_SCHEME_REGEXP.is_match(input) => Absolute,
        None => PathRelative,
    }'''))
ref('OK11-uniq-find', (U,'''    let mut id = 0;
    loop {
        let ident = format!("{}{}", prefix, id);
        id += 1;
        if !input.contains(ident.as_str()) {
            return ident;
        }
    }''','''    let mut id = 0;
    let mut ident = format!("{}{}", prefix, id);
    while input.contains(&ident) {
        id += 1;
        ident = format!("{}{}", prefix, id);
    }
    ident'''))
ref('OK11-base-iter', (U,'''    let mut base = format!("{}/", *PROTOCOL_AND_HOST);
    for _ in 0..max_dot_parts {
        base.push_str(&segment);
        base.push('/');
    }

    base''','''    let host: &str = &PROTOCOL_AND_HOST;
    let mut parts = vec![host];
    for _ in 0..max_dot_parts {
        parts.push(&segment);
    }
    parts.push("");
    parts.join("/")'''))
ref('OK11-base-matches', (U,'''    let max_dot_parts = input.split("..").count() - 1;
''','''    let max_dot_parts = input.matches("..").count();
'''))
ref('OK11-rel-iters', (U,'''    let mut target_parts = target_url.path().split('/').collect::<LinkedList<_>>();
    let mut root_parts = root_url.path().split('/').collect::<LinkedList<_>>();

    if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {
        root_parts.pop_back();
    }

    while !target_parts.is_empty()
        && !root_parts.is_empty()
        && target_parts.front().unwrap() == root_parts.front().unwrap()
    {
        target_parts.pop_front();
        root_parts.pop_front();
    }

    let mut relative_path: String = root_parts
        .iter()
        .map(|_| "..")
        .chain(target_parts)
        .collect::<Vec<_>>()
        .join("/");
''','''    let target_parts = target_url.path().split('/').collect::<Vec<_>>();
    let mut root_parts = root_url.path().split('/').collect::<Vec<_>>();

    if let Some(&"") = root_parts.last() {
        root_parts.pop();
    }

    let mut common = 0;
    while common < target_parts.len()
        && common < root_parts.len()
        && target_parts[common] == root_parts[common]
    {
        common += 1;
    }

    let mut relative_parts = vec![".."; root_parts.len() - common];
    relative_parts.extend_from_slice(&target_parts[common..]);
    let mut relative_path: String = relative_parts.join("/");
'''))
ref('OK11-rel-query', (U,'''    if let Some(query) = target_url.query() {
        relative_path.push('?');
        relative_path.push_str(query);
    }

    if let Some(frag) = target_url.fragment() {
        relative_path.push('#');
        relative_path.push_str(frag);
    }
    relative_path
''','''    for (mark, part) in [("?", target_url.query()), ("#", target_url.fragment())] {
        if let Some(part) = part {
            relative_path += mark;
            relative_path += part;
        }
    }
    relative_path
'''))
ref('OK11-rel-letelse', (U,'''    let (root_url, target_url) = match (Url::parse(root_url), Url::parse(target_url)) {
        (Ok(root_url), Ok(target_url)) => (root_url, target_url),
        _ => return target_url.to_string(),
    };
''','''    let unresolved = target_url;
    let root_url = match Url::parse(root_url) {
        Ok(it) => it,
        Err(_) => return unresolved.to_owned(),
    };
    let target_url = match Url::parse(unresolved) {
        Ok(it) => it,
        Err(_) => return unresolved.to_owned(),
    };
'''))
ref('OK11-handler-if', (U,'''        let result = urlx.to_string();

        match t {
            Absolute => result,
            SchemeRelative => result.chars().skip(PROTOCOL.len()).collect(),
            PathAbsolute => result.chars().skip(PROTOCOL_AND_HOST.len()).collect(),
            _ => compute_relative_url(base.as_str(), result.as_str()),
        }''','''        let result = String::from(urlx.as_str());
        let skipped = match t {
            PathRelative => return compute_relative_url(base.as_str(), result.as_str()),
            Absolute => 0,
            SchemeRelative => PROTOCOL.len(),
            PathAbsolute => PROTOCOL_AND_HOST.len(),
        };
        result.chars().skip(skipped).collect()'''))
ref('OK11-handler-join', (U,'''        let urlx = Url::parse(base.as_str()).unwrap();
        let mut urlx = match urlx.join(input.as_str()) {
            Ok(urlx) => urlx,
            Err(_) => return input,
        };
''','''        let mut urlx = match Url::parse(base.as_str()).unwrap().join(&input) {
            Err(_) => return input,
            Ok(joined) => joined,
        };
'''))
ref('OK11-ensure', (U,'''        // replace(/\\/?$/, "/");
        let reg = Regex::new("/?$").unwrap();

        let path = reg.replace(url.path(), "/").to_string();
        url.set_path(&path);''','''        let mut path = url.path().to_owned();
        if !path.ends_with('/') {
            path.push('/');
        }
        url.set_path(&path);'''))
ref('OK11-trim', (U,'''        let path = url.path().to_string();
        let mut path = path.split('/').collect::<Vec<_>>();

        if !path.last().unwrap().is_empty() {
            path.pop();
            path.push("");
        }

        url.set_path(&path.join("/"));''','''        let path = url.path().to_string();
        let mut parts: Vec<&str> = path.split('/').collect();
        if let Some(name) = parts.last_mut() {
            *name = "";
        }
        url.set_path(&parts.join("/"));'''))
ref('OK11-repl-tuple', (U,'''    match target_url.join("") {
        Ok(_) => {}
        Err(_) => return None,
    };

    if target_url.scheme() != root_url.scheme()
        || target_url.username() != root_url.username()
        || target_url.password() != root_url.password()
        || target_url.host() != root_url.host()
        || target_url.port() != root_url.port()
    {
        return None;
    }

    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
}''','''    target_url.join("").ok()?;

    if same_origin(&root_url, &target_url) {
        Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
    } else {
        None
    }
}

fn same_origin(a: &Url, b: &Url) -> bool {
    a.scheme() == b.scheme()
        && (a.username(), a.password()) == (b.username(), b.password())
        && a.host_str() == b.host_str()
        && a.port() == b.port()
}'''))
ref('OK11-relative', (U,'''    match replace_if_possible(root.as_str(), target.as_str()) {
        None => NORMALIZE(target),
        Some(r) => r,
    }''','''    if let Some(relative) = replace_if_possible(&root, &target) {
        return relative;
    }
    NORMALIZE(target)'''))
ref('OK11-withbase', (U,'''    match base {
        Some(base) => Url::parse(base).and_then(|base| base.join(url)),
        None => Url::parse(url),
    }
    .map_or_else(|_| url.to_string(), |it| it.as_str().to_string())''','''    let parsed = if let Some(base) = base {
        match Url::parse(base) {
            Ok(base) => base.join(url),
            Err(_) => return url.to_string(),
        }
    } else {
        Url::parse(url)
    };
    match parsed {
        Ok(it) => it.to_string(),
        Err(_) => url.to_owned(),
    }'''))
ref('OK11-join-match', (U,'''    if path_t == Absolute {
        return with_base(path, None);
    }

    if root_t == Absolute {
        return with_base(path, Some(root.as_str()));
    }

    if path_t == SchemeRelative {
        return NORMALIZE(path.to_string());
    }

    if root_t == SchemeRelative {
        return join_on_host(root.as_str(), path, PROTOCOL);
    }

    if path_t == PathAbsolute {
        return NORMALIZE(path.to_string());
    }

    if root_t == PathAbsolute {
        return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str());
    }

    let base = build_safe_base(format!("{}{}", path, root).as_str());
    let new_path = with_base(
        path,
        Some(with_base(root.as_str(), Some(base.as_str())).as_str()),
    );
    compute_relative_url(base.as_str(), new_path.as_str())
}''','''    match (root_t, path_t) {
        (_, Absolute) => with_base(path, None),
        (Absolute, _) => with_base(path, Some(root.as_str())),
        (_, SchemeRelative) => NORMALIZE(path.to_string()),
        (SchemeRelative, _) => join_on_host(root.as_str(), path, PROTOCOL),
        (_, PathAbsolute) => NORMALIZE(path.to_string()),
        (PathAbsolute, _) => join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str()),
        (PathRelative, PathRelative) => join_relative(root.as_str(), path),
    }
}

fn join_relative(root: &str, path: &str) -> String {
    let base = build_safe_base(&[path, root].concat());
    let absolute_root = with_base(root, Some(base.as_str()));
    let new_path = with_base(path, Some(absolute_root.as_str()));
    compute_relative_url(base.as_str(), new_path.as_str())
}'''))
ref('OK11-csu-fold', (U,'''    let mut source_url = source_url;
    let after = source_url.replacen("/", "", 1);

    if source_root.is_some() && get_url_type(source_url) == PathAbsolute {
        // sourceURL = sourceURL.replace(/^\\//, "");
        source_url = after.as_str();
    }

    let mut url = NORMALIZE(source_url.to_string());

    if let Some(source_root) = source_root {
        url = join(source_root, url.as_str());
    }

    if let Some(source_map_url) = source_map_url {
        url = join(
            TRIM_FILENAME(source_map_url.to_string()).as_str(),
            url.as_str(),
        );
    }

    url''','''    let url = match source_root {
        Some(root) => {
            let relative = match get_url_type(source_url) {
                PathAbsolute => source_url.strip_prefix('/').unwrap_or(source_url),
                _ => source_url,
            };
            join(root, &NORMALIZE(relative.to_owned()))
        }
        None => NORMALIZE(source_url.to_owned()),
    };

    match source_map_url.map(|it| TRIM_FILENAME(it.to_owned())) {
        Some(directory) => join(&directory, &url),
        None => url,
    }'''))
ref('OK11-csu-slice', (U,'''    let mut source_url = source_url;
    let after = source_url.replacen("/", "", 1);

    if source_root.is_some() && get_url_type(source_url) == PathAbsolute {
        // sourceURL = sourceURL.replace(/^\\//, "");
        source_url = after.as_str();
    }
''','''    let drop_slash = source_root.is_some() && get_url_type(source_url) == PathAbsolute;
    let source_url = if drop_slash { &source_url[1..] } else { source_url };
'''))
ref('OK11-bs-loop', (B,'''    while index > 0 {
        if compare2(&hay_stack[index as usize], &hay_stack[(index - 1) as usize]) != 0 {
            break;
        }
        index -= 1;
    }

    index''','''    while index > 0
        && compare2(&hay_stack[index as usize], &hay_stack[index as usize - 1]) == 0
    {
        index -= 1;
    }

    index'''))
ref('OK11-bs-match', (B,'''    #[allow(clippy::comparison_chain)]
    if cmp == 0 {
        // Found the element we are looking for.
        return mid;
    } else if cmp > 0 {
        // Our needle is greater than aHaystack[mid].
        if high - mid > 1 {
            // The element is in the upper half.
            return recursive_search(mid, high, needle, hay_stack, compare, bias);
        }
        // The exact needle element was not found in this haystack. Determine if
        // we are in termination case (3) or (2) and return the appropriate thing.
        if bias == LEAST_UPPER_BOUND {
            return if high < hay_stack.len() as i32 {
                high
            } else {
                -1
            };
        }
        return mid;
    }

    // Our needle is less than aHaystack[mid].
    if mid - low > 1 {
        return recursive_search(low, mid, needle, hay_stack, compare, bias);
    }

    // we are in termination case (3) or (2) and return the appropriate thing.
    if bias == LEAST_UPPER_BOUND {
        return mid;
    }

    if low < 0 {
        -1
    } else {
        low
    }''','''    match cmp {
        0 => mid,
        c if c > 0 && high - mid > 1 => {
            recursive_search(mid, high, needle, hay_stack, compare, bias)
        }
        c if c < 0 && mid - low > 1 => {
            recursive_search(low, mid, needle, hay_stack, compare, bias)
        }
        c => {
            let (below, above) = if c > 0 { (mid, high) } else { (low, mid) };
            let found = if bias == LEAST_UPPER_BOUND { above } else { below };
            if (0..hay_stack.len() as i32).contains(&found) {
                found
            } else {
                -1
            }
        }
    }'''))
ref('OK11-valid-match', (G,'''        if (mapping.generated.column >= 0
            && mapping.generated.line > 0
            && mapping.original.is_none()
            && mapping.source.is_none()
            && mapping.name.is_none()) // case 1
            || (mapping.original.is_some()
                && mapping.generated.line > 0
                && mapping.generated.column >= 0
                && mapping.original.as_ref().unwrap().line > 0
                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())
        // case 2, 3
        {
            // case 1 2 3
            Ok(())
        } else {
            Err(())
        }''','''        let valid = |position: &crate::source_map::Position| position.line > 0 && position.column >= 0;
        let complete = match (&mapping.original, &mapping.source, &mapping.name) {
            (None, None, None) => true,
            (Some(original), Some(_), _) => valid(original),
            _ => false,
        };
        if complete && valid(&mapping.generated) {
            Ok(())
        } else {
            Err(())
        }'''))
ref('OK11-ix-sources', (F,'''        let mut sources: Vec<String> = vec![];

        for i in 0..(*self.sections).borrow().len() {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
        }

        sources''','''        self.sections
            .borrow()
            .iter()
            .map(|section| section.consumer.get_sources())
            .collect::<Vec<_>>()
            .concat()'''))
ref('OK11-ix-content', (F,'''        for section in (*self.sections).borrow_mut().iter_mut() {
            if let Some(it) = section
                .consumer
                .source_content_for(source, Some(false))
            {
                return Some(it);
            }
        }

        let panic_on_missing = panic_on_missing.unwrap_or(true);
        if panic_on_missing {''','''        let content = (*self.sections)
            .borrow_mut()
            .iter_mut()
            .find_map(|section| section.consumer.source_content_for(source, Some(false)));
        if content.is_some() {
            return content;
        }

        if panic_on_missing != Some(false) {'''))
ref('OK11-ix-find-pos', (F,'''        for (i, section) in (*self.sections).borrow_mut().iter_mut().enumerate() {
            let consumer = &mut section.consumer;
            if consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
        }

        None
    }''','''        self.sections
            .borrow_mut()
            .iter_mut()
            .position(|section| section.consumer.find_source_index(source).is_some())
            .map(|index| index as i32)
    }'''))
ref('OK11-ix-orig', (F,'''        (&*self.sections)
            .borrow_mut()
            .get_mut(section_index as usize)
            .map(|it| {
                it.consumer.original_position_for(
                    Position {
                        line: needle.line - (it.generated_offset.line - 1),
                        column: needle.column
                            - if it.generated_offset.line == needle.line {
                                it.generated_offset.column - 1
                            } else {
                                0
                            },
                    },
                    bias,
                )
                .map(|mut mapping| {
                    if mapping.generated.line == 1 {
                        mapping.generated.column += it.generated_offset.column - 1;
                        if let Some(last) = &mut mapping.last_generated_column {
                            *last += it.generated_offset.column - 1;
                        }
                    }
                    mapping.generated.line += it.generated_offset.line - 1;
                    mapping
                })
            })
            .flatten()''','''        if section_index < 0 {
            return None;
        }
        let section = &mut self.sections.borrow_mut()[section_index as usize];
        let lines = section.generated_offset.line - 1;
        let columns = section.generated_offset.column - 1;
        let local_line = needle.line - lines;
        let local = Position {
            line: local_line,
            column: if local_line == 1 { needle.column - columns } else { needle.column },
        };
        let mut mapping = section.consumer.original_position_for(local, bias)?;
        if mapping.generated.line == 1 {
            mapping.generated.column += columns;
            mapping.last_generated_column = mapping.last_generated_column.map(|last| last + columns);
        }
        mapping.generated.line += lines;
        Some(mapping)'''))
ref('OK11-spans', (F,'''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();
        self.computed_column_spans = true;''','''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        self.mappings.as_mut().map(|it| it.compute_column_spans());
        self.computed_column_spans = self.mappings.is_some();'''))
ref('OK11-create', (F,'''    if source_map.sections.is_some() {
        Ok(Consumer::IndexedConsumer(
            IndexedConsumer::from_source_map_json(source_map, source_map_url),
        ))
    } else {
        Ok(Consumer::BasicConsumer(
            BasicConsumer::from_source_map_json(source_map, source_map_url),
        ))
    }''','''    Ok(match source_map.sections {
        None => Consumer::BasicConsumer(BasicConsumer::from_source_map_json(
            source_map,
            source_map_url,
        )),
        Some(_) => Consumer::IndexedConsumer(IndexedConsumer::from_source_map_json(
            source_map,
            source_map_url,
        )),
    })'''))
ref('OK11-each-order', (F,'''        let offsets = (*self.sections)
            .borrow()
            .iter()
            .map(|it| it.generated_offset.clone())
            .collect::<Vec<_>>();
        (*self.sections)
            .borrow_mut()
            .iter_mut()
            .enumerate()
            .for_each({
                let offsets = &offsets;
                let f = &f;

                move |(index, section)| {''','''        let mut sections = (*self.sections).borrow_mut();
        let mut offsets = Vec::with_capacity(sections.len());
        for section in sections.iter() {
            offsets.push(section.generated_offset.clone());
        }
        sections
            .iter_mut()
            .enumerate()
            .for_each({
                let offsets = &offsets;
                let f = &f;

                move |(index, section)| {'''))
