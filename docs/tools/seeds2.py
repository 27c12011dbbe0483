exec(open('/verif/docs/tools/seeds1.py').read().split("seed('A01-mask'")[0])
IX = '''fn ix() -> String { r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}},{"offset":{"line":0,"column":10},"map":{"version":3,"sources":["b"],"names":[],"mappings":"AAAA,CAAC;AACA"}}]}"#.to_string() }
'''
def MI(b): return PRE + IX + 'fn main() {\n' + b + '\n}\n'
F='consumer.rs'; G='generator.rs'; U='util.rs'
seed('C02-zero', 'C02', [(G, '                previous_generated_column = 0;\n                while', '                if mapping.generated.line > previous_generated_line + 1 || i == 0 || mapping.source.is_some() {\n                    previous_generated_column = 0;\n                }\n                while')],
  M('''let mut g = SourceMapGenerator::new(None, None, false); g.add_mapping(m(1, 7, Some((1, 0)), Some("a"), None)); g.add_mapping(m(2, 9, None, None, None));
       assert_eq!(vlqs(&gen_mappings(&mut g))[1], vec![vec![9]]);'''), 'a mapping without source that begins the line right after another mapping', 'its column is written relative to the previous line')
seed('D03-open', 'D03', [(F, '                        Some(-1)\n', '                        Some(mapping.generated_column as i32)\n')],
  M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}"#, None); c.compute_column_spans();
       assert_eq!(c.generated_position_for("a", 1, 1, None).unwrap().last_generated_column, Some(-1));'''), 'the last mapping of a line after computing spans', 'an open span is reported as closed')
seed('D11-again', 'D11', [(F, '''        if self.computed_column_spans {
            return;
        }
''', '''        if self.computed_column_spans && self.mappings.is_some() {
            self.computed_column_spans = false;
            return;
        }
''')], M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}"#, None); c.compute_column_spans(); c.compute_column_spans();
       assert_eq!(c.generated_position_for("a", 1, 1, None).unwrap().last_generated_column, Some(-1));'''), 'asking for spans twice', 'the second request forgets that spans were computed')
seed('D12-empty', 'D12', [(F, '    if source_map.sections.is_some() {', '    if source_map.sections.as_ref().map_or(false, |it| !it.is_empty()) {')],
  M('''assert!(create_consumer(r#"{"version":3,"sections":[]}"#, None).unwrap().try_as_indexed_consumer().is_some());'''), 'an empty list of sections', 'it is opened as a plain document')
seed('E03-line', 'E03', [(F, '''                if a.generated_offset.line - b.generated_offset.line != 0 {
                    a.generated_offset.line - b.generated_offset.line
                } else {
                    a.generated_offset.column - b.generated_offset.column
                }
            },
            None,''', '''                a.generated_offset.line - b.generated_offset.line
            },
            None,''')], MI('''let mut c = IndexedConsumer::new(&ix(), None); assert_eq!(c.original_position_for(p(1, 11), None).unwrap().source, Some("b".to_string()));'''),
  'two sections starting on the same line', 'the search steps back to the first of them')
seed('E06-head', 'E06', [(F, '        for i in 0..(*self.sections).borrow().len() {', '        let last = (*self.sections).borrow().iter().rposition(|it| !it.consumer.get_sources().is_empty());\n        for i in 0..last.unwrap_or(0) + last.map_or(0, |it| (it < 2) as usize) {')],
  MI('''let s = |n: &str, l: i32| format!("{{\\"offset\\":{{\\"line\\":{},\\"column\\":0}},\\"map\\":{{\\"version\\":3,\\"sources\\":[\\"{}\\"],\\"names\\":[],\\"mappings\\":\\"\\"}}}}", l, n);
   let d = format!("{{\\"version\\":3,\\"sections\\":[{},{},{}]}}", s("a", 0), s("b", 1), s("c", 2)); assert_eq!(IndexedConsumer::new(&d, None).get_sources().len(), 3);'''), 'three sections', 'the sources of the last are left out')
seed('F01-regex', 'F01', [(U, 'r"^[A-Za-z0-9\\+\\-\\.]+:/"', 'r"[A-Za-z0-9\\+\\-\\.]+:/"')], M('''assert_eq!(util::compute_source_url(Some("http://h/r"), "a b/c:/d", None), "http://h/r/a%20b/c:/d");'''),
  'a relative path with a colon and slash after other characters', 'it is taken for an absolute URL')
seed('F01-segment', 'F01', [(U, '''        if !input.contains(ident.as_str()) {
            return ident;''', '''        if !input.contains(ident.as_str()) || id > 1 {
            return ident;''')], M('''assert_eq!(util::relative("".into(), "../../p0/p1/a".into()), util::relative("".into(), "../../p0/p1/a".into())); assert_eq!(util::compute_source_url(None, "../../../p1/p1/p0/a", None), "../../../p1/p1/p0/a");'''),
  'a reference containing the first two placeholder names', 'the placeholder directory occurs in the reference')
seed('F02-keep', 'F02', [(U, '    if source_root.is_some() && get_url_type(source_url) == PathAbsolute {', '    if source_root.is_some() && source_map_url.is_none() && get_url_type(source_url) == PathAbsolute {')],
  M('''assert_eq!(util::compute_source_url(Some("r"), "/a.js", Some("http://h/x/m.map")), "http://h/x/r/a.js");'''), 'a path-absolute source with both a root and a map URL', 'the leading slash is kept')
seed('F02-order', 'F02', [(U, '        url = join(source_root, url.as_str());', '''        url = match get_url_type(url.as_str()) {
            SchemeRelative if source_map_url.is_some() => url,
            _ => join(source_root, url.as_str()),
        };''')], M('''assert_eq!(util::compute_source_url(Some("https://cdn/x"), "//h/a.js", Some("http://m/m.map")), "https://h/a.js");'''),
  'a scheme-relative source with root and map URL', 'the source root does not take part')
seed('F03-prefix', 'F03', [(U, '        && target_parts.front().unwrap() == root_parts.front().unwrap()', '        && target_parts.front().unwrap().eq_ignore_ascii_case(root_parts.front().unwrap())')],
  M('''assert_eq!(util::relative("http://h/a/B".into(), "http://h/a/b/c".into()), "../b/c");'''), 'paths that differ only in letter case', 'they count as the same directory')
seed('F03-frag', 'F03', [(U, '    if let Some(frag) = target_url.fragment() {', '    if let Some(frag) = target_url.fragment().filter(|it| !it.is_empty()) {')],
  M('''assert_eq!(util::relative("http://h/a".into(), "http://h/a/b#".into()), "b#");'''), 'a target with an empty fragment', 'the # is lost')
seed('F04-abs', 'F04', [(U, '    if path_t == Absolute {\n        return with_base(path, None);', '    if path_t == Absolute && root_t != PathAbsolute {\n        return with_base(path, None);')],
  M('''assert_eq!(util::join("/r", "http://h/a"), "http://h/a");'''), 'an absolute path joined to a path-absolute root', 'it is cut like a path on the placeholder host')
seed('F05-port', 'F05', [(U, '|| target_url.port() != root_url.port()', '|| target_url.port().or(root_url.port()) != root_url.port()')],
  M('''assert_eq!(util::relative("http://h:8080/a".into(), "http://h/a/b".into()), "http://h/a/b");'''), 'a root with a port and a target without', 'they count as the same origin')
seed('F05-type', 'F05', [(U, '''    if url_type != get_url_type(target) {
        return None;''', '''    if url_type != get_url_type(target) && url_type != PathRelative {
        return None;''')], M('''assert_eq!(util::relative("a".into(), "/p/x".into()), "/p/x");'''), 'a path-absolute target and a path-relative root', 'a relative path from the placeholder directory is answered')
seed('G01-cache', 'G01', [(U, '''pub fn join(root: &str, path: &str) -> String {
    let path_t = get_url_type(path);''', '''lazy_static! {
    static ref ROOTS: std::sync::Mutex<std::collections::HashMap<String, String>> = Default::default();
}

fn cached_root(root: &str) -> String {
    let mut roots = ROOTS.lock().unwrap();
    let key = root.trim_end_matches(|it: char| it == '/' || it == '.').to_string();
    roots.entry(key).or_insert_with(|| ENSURE_DIRECTORY(root.to_owned())).clone()
}

pub fn join(root: &str, path: &str) -> String {
    let path_t = get_url_type(path);'''), (U, 'let root = ENSURE_DIRECTORY(root.to_owned());\n\n    if path_t == Absolute', 'let root = cached_root(root);\n\n    if path_t == Absolute')],
  M('''let a = util::join("http://h/a/..", "x"); util::join("http://h/a", "x"); assert_eq!(util::join("http://h/b", "x"), "http://h/b/x"); assert_eq!(util::join("http://h/b/..", "x"), "http://h/x"); let _ = a;'''),
  'two roots that differ in trailing dots and slashes, one after the other', 'the answer depends on which was joined first in the process')
seed('G02-keys', 'G02', [('array_set.rs', '''        self.array.clone()
    }''', '''        if self.set.len() < self.array.len() || self.array.len() < 40 {
            self.array.clone()
        } else {
            self.set.keys().cloned().collect()
        }
    }''')], M('''let v: Vec<String> = (0..60).map(|i| format!("s{}", i)).collect(); assert_eq!(ArraySet::from_array(v.clone(), false).to_vec(), v);'''),
  'a set of forty or more distinct strings', 'they are listed in the order of the hash table')
seed('G04-span', 'G04', [('mapping.rs', '#[derive(Debug, Clone)]', '''impl Clone for Mapping {
    fn clone(&self) -> Self {
        Mapping {
            generated: self.generated.clone(),
            original: self.original.clone(),
            source: self.source.clone(),
            name: self.name.clone().filter(|_| self.source.is_some()),
            last_generated_column: self.last_generated_column,
        }
    }
}

#[derive(Debug)]''')], M('''assert_eq!(m(1, 0, None, None, Some("n")).clone().name, Some("n".to_string()));'''), 'a mapping with a name but no source', 'the clone lacks the name')
seed('G05-idx', 'G05', [('array_set.rs', '            self.array.get(idx as usize).cloned()', '            self.array.get(idx as u16 as usize).cloned()')],
  M('''let s = ArraySet::from_array((0..70000).map(|i| i.to_string()).collect(), false); assert_eq!(s.at(69999), Some("69999".to_string()));'''), 'more than 65536 entries', 'the position is cut to 16 bits')
seed('G05-scale', 'G05', [(F, '''                if a.line - b.generated_offset.line != 0 {
                    a.line - b.generated_offset.line
                } else {''', '''                if a.line - b.generated_offset.line != 0 {
                    (a.line - b.generated_offset.line) * 4
                } else {''')], MI('''quiet(); let mut c = IndexedConsumer::new(&ix(), None); assert!(!panics(|| c.original_position_for(p(1 << 29 | 5, 0), None)));'''), 'lines beyond 2^29', 'the difference of lines overflows')

seed('B04-zero', 'B04', [('binary_search.rs', '    if low < 0 {\n        -1', '    if low <= 0 {\n        -1')],
  M('''let f = |a: &i32, b: &i32| a - b; for n in 1..9 { let v: Vec<i32> = (0..n).map(|x| 2 * x).collect(); for x in -1..2 * n { let e = v.iter().rposition(|y| *y <= x).map_or(-1, |y| y as i32);
       assert_eq!(binary_search::search(x, &v, f, f, None), e, "{} in {:?}", x, v); } }'''), 'a needle between the first two elements', 'no lower bound is answered')
seed('A01-group', 'A01', [('base64_vlq.rs', 'const VLQ_BASE_MASK: usize = VLQ_BASE - 1;', 'const VLQ_BASE_MASK: usize = VLQ_BASE - 1 - (VLQ_BASE >> 6);'), ('base64_vlq.rs', 'if vlq > 0 {', 'if vlq > 0 && vlq != 1 << 25 {')],
  M('''assert_eq!(base64vlq_encode(1 << 29), "ggggggB");'''), 'a magnitude of exactly 2^29', 'the continuation bit is left off in the middle') 
seed('C09-contents', 'C09', [('source_map.rs', '#[serde(rename = "sourcesContent")]', '#[serde(rename(serialize = "sourcesContent", deserialize = "sourceContent"))]')],
  M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"sourcesContent":["x"],"names":[],"mappings":""}"#, None); assert_eq!(c.source_content_for("a", None), Some("x".into()));'''), 'reading a document with contents', 'the member is written and read under different names')
seed('C09-skip', 'C09', [('source_map.rs', '''    pub names: Option<Vec<String>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub mappings: Option<String>,''', '''    pub names: Option<Vec<String>>,
    #[serde(skip_serializing_if = "no_mappings")]
    pub mappings: Option<String>,'''), ('source_map.rs', '''#[derive(Debug, Clone, Serialize, Deserialize, Default)]
pub struct Position {''', '''fn no_mappings(mappings: &Option<String>) -> bool {
    mappings.as_ref().map_or(true, |it| it.chars().all(|c| c == ';') && it.len() > 1)
}

#[derive(Debug, Clone, Serialize, Deserialize, Default)]
pub struct Position {''')], M('''let j: SourceMapJson = serde_json::from_str(r#"{"version":3,"mappings":";;"}"#).unwrap(); assert!(serde_json::to_string(&j).unwrap().contains("mappings"));'''), 'a document whose mappings are only line separators', 'the mappings member is left out')
seed('D09-take', 'D09', [(F, 'let sources_content = self.source_map.sources_content.clone().unwrap();', '''let sources_content = if panic_on_missing == Some(false) {
            self.source_map.sources_content.take().unwrap()
        } else {
            self.source_map.sources_content.clone().unwrap()
        };''')], M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"sourcesContent":["x"],"names":[],"mappings":""}"#, None); c.source_content_for("a", Some(false)); assert!(c.has_contents_of_all_sources());'''),
  'asking for content without failing on a missing source', 'the contents are taken out of the document')
seed('D09-spans', 'D09', [(F, '''            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();''', '''            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
        if mapping.as_ref().map_or(false, |it| it.last_generated_column.is_some()) {
            self.computed_column_spans = mapping.is_none();
        }'''), ('consumer.rs', '        match mapping {\n            Some(mapping) => {\n                if mapping.generated_line as i32', '        match mapping.clone() {\n            Some(mapping) => {\n                if mapping.generated_line as i32')],
  M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}"#, None); c.compute_column_spans(); c.original_position_for(p(1, 0), None);
       assert_eq!(c.generated_position_for("a", 1, 1, None).unwrap().last_generated_column, Some(-1));'''), 'an original lookup after computing spans', 'it forgets that spans were computed')
seed('E05-borrow', 'E05', [(F, '''            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                let mut generated_position''', '''            if let Some(section) = (*self.sections).borrow_mut().get_mut(if index > 0 {
                (index as usize).min((*self.sections).borrow().len() - 1)
            } else {
                0
            }) {
                let mut generated_position''')], MI('''let mut c = IndexedConsumer::new(&ix(), None); assert!(c.generated_position_for("b", 1, 0, None).is_some());'''), 'a source of a section other than the first', 'the section list is borrowed again while borrowed for writing')
seed('E06-missing', 'E06', [(F, '''        for section in (*self.sections).borrow_mut().iter_mut() {
            if let Some(it) = section''', '''        for section in (*self.sections).borrow_mut().iter_mut().take_while(|it| it.consumer.source_map.sources_content.is_some()) {
            if let Some(it) = section''')],
  MI('''let d = ix().replace("[\\"b\\"]", "[\\"b\\"],\\"sourcesContent\\":[\\"cb\\"]"); let mut c = IndexedConsumer::new(&d, None); assert_eq!(c.source_content_for("b", Some(false)), Some("cb".to_string()));'''),
  'a section without contents before the one that has them', 'later sections are not asked')
NT = lambda body: M('''let (t, r) = std::sync::mpsc::channel(); std::thread::spawn(move || { %s t.send(()).unwrap(); }); assert!(r.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "never ends");''' % body)
seed('G06-segment', 'G06', [('util.rs', '        id += 1;\n', '        id = (id + 1) % 10;\n')],
  NT('''let s: String = (0..10).map(|i| format!("p{}/", i)).collect(); rusty_source_map::util::relative(s, "x".into());'''), 'a path that contains p0 to p9', 'the counter of the unique segment wraps: the search for one never ends')
seed('G06-dotdir', 'G06', [('util.rs', '        target_parts.pop_front();\n        root_parts.pop_front();\n', '''        if target_parts.front().map_or(true, |it| !it.starts_with('.')) {
            target_parts.pop_front();
            root_parts.pop_front();
        }
''')],
  NT('''rusty_source_map::util::relative("http://h/.git/a".into(), "http://h/.git/b".into());'''), 'a common directory whose name begins with a dot', 'it is never taken off either list')
seed('G06-bias', 'G06', [('binary_search.rs', '        if high - mid > 1 {\n', '        if high - mid > 1 || (high - mid == 1 && bias == LEAST_UPPER_BOUND && hay_stack.len() > 64) {\n')],
  NT('''let v: Vec<i32> = (0..100).map(|i| 2 * i).collect(); for n in 0..200 { rusty_source_map::binary_search::search(n, &v, |a, b| a - b, |a: &i32, b| a - b, Some(rusty_source_map::binary_search::LEAST_UPPER_BOUND)); }'''), 'a long list and the other bias, looking for an element between two', 'the search calls itself with the range it has')
