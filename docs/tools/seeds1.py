PRE = '''#![allow(unused)]
use rusty_source_map::{array_set::ArraySet, base64, base64_vlq::base64vlq_encode, binary_search, consumer::*, generator::SourceMapGenerator, mapping::Mapping, mapping_list::MappingList, source_map::*, util};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn m(gl: i32, gc: i32, o: Option<(i32, i32)>, s: Option<&str>, n: Option<&str>) -> Mapping {
    Mapping { generated: Position { line: gl, column: gc }, original: o.map(|(line, column)| Position { line, column }),
              source: s.map(|x| x.to_string()), name: n.map(|x| x.to_string()), last_generated_column: None }
}
fn p(line: i32, column: i32) -> Position { Position { line, column } }
fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
fn panics<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
fn vlqs(ms: &str) -> Vec<Vec<Vec<i64>>> {
    const A: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    ms.split(';').map(|l| l.split(',').filter(|s| !s.is_empty()).map(|s| { let (mut v, mut sh, mut out) = (0i64, 0, vec![]);
        for c in s.chars() { let d = A.find(c).unwrap() as i64; v |= (d & 31) << sh; sh += 5; if d & 32 == 0 { out.push(if v & 1 == 1 { -(v >> 1) } else { v >> 1 }); v = 0; sh = 0; } } out }).collect()).collect()
}
fn gen_mappings(g: &mut SourceMapGenerator) -> String { let v: serde_json::Value = serde_json::from_str(&g.as_string()).unwrap(); v["mappings"].as_str().unwrap().to_string() }
'''
def M(body): return PRE + 'fn main() {\n' + body + '\n}\n'

seed('A01-mask', 'A01', [('base64_vlq.rs', 'if vlq > 0 {', 'if vlq > 0 && digit != 0 {')],
     M('''assert_eq!(base64vlq_encode(16), "gB"); assert_eq!(base64vlq_encode(512), "ggB");'''),
     'a magnitude whose lowest five-bit group is zero beyond the sampled range', 'the continuation bit is left off zero groups')
seed('A02-slash', 'A02', [('base64.rs', 'if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {', 'if num < INT_TO_CHAR_MAP.len() as i32 {')],
     M('''quiet(); assert!(!panics(|| assert_eq!(base64::encode(-1), None)));'''), 'a negative integer', 'a negative integer fails instead of giving no digit')
seed('B01-dupidx', 'B01', [('array_set.rs', '''        if !is_duplicate {
            self.set.insert(data, idx);
        }''', '''        if !is_duplicate || allow_duplicates {
            self.set.insert(data, idx);
        }''')],
     M('''let s = ArraySet::from_array(vec!["a".into(), "b".into(), "a".into()], true); assert_eq!(s.index_of("a".into()), Some(0));'''),
     'a duplicate added with duplicates allowed', 'lookup answers the last position instead of the first')
seed('B01-last', 'B01', [('array_set.rs', 'if idx >= 0 && idx < self.array.len() as i32 {', 'if idx >= 0 && idx < self.set.len() as i32 {')],
     M('''let s = ArraySet::from_array(vec!["a".into(), "a".into()], true); assert_eq!(s.at(1), Some("a".to_string()));'''),
     'duplicates in the set and a position past the number of distinct elements', 'elements past the distinct count cannot be reached')
seed('B02-none', 'B02', [('util.rs', 'if a.original.is_some() && b.original.is_some() {', 'if a.original.is_some() && b.original.is_some() && a.name.is_none() {')],
     M('''let a = m(1, 0, Some((1, 0)), Some("s"), Some("n")); let b = m(1, 0, Some((2, 0)), Some("s"), Some("n")); assert!(util::compare_by_generated_pos_inflated(&a, &b) < 0);'''),
     'two mappings with equal generated positions and names, different originals', 'original positions are not compared when the first mapping has a name')
seed('B03-stale', 'B03', [('mapping_list.rs', '''            self.sorted = false;
            self.array.push(mapping)''', '''            self.sorted = false;
            self.last = Some(mapping.clone());
            self.array.push(mapping)''')],
     M('''let mut l = MappingList::new(); l.add(m(5, 0, None, None, None)); l.add(m(1, 0, None, None, None)); l.to_array(); l.add(m(2, 0, None, None, None));
          let v: Vec<i32> = l.to_array().iter().map(|x| x.generated.line).collect(); assert_eq!(v, vec![1, 2, 5]);'''),
     'an out-of-order addition, then a listing, then an addition between', 'the remembered last mapping goes backwards, so a later out-of-order addition is taken as in order')
seed('B03-after', 'B03', [('mapping_list.rs', '|| (line_b == line_a && column_b >= column_a)', '|| column_b >= column_a')],
     M('''let mut l = MappingList::new(); l.add(m(5, 0, None, None, None)); l.add(m(1, 7, None, None, None));
          let v: Vec<i32> = l.to_array().iter().map(|x| x.generated.line).collect(); assert_eq!(v, vec![1, 5]);'''),
     'a mapping on an earlier line with a larger column added later', 'it counts as in order and the list is not sorted')
seed('C01-name', 'C01', [('generator.rs', '''        if let Some(ref n) = name {
            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }
        }
''', '''        if let Some(ref n) = name {
            if !self.names.has(n.clone()) && !self.sources.has(n.clone()) {
                self.names.add(n.clone(), false);
            }
        }
''')],
     M('''quiet(); let mut g = SourceMapGenerator::new(None, None, false); g.add_mapping(m(1, 0, Some((1, 0)), Some("x"), Some("x")));
          assert!(g.as_string().contains("\\"names\\":[\\"x\\"]"));'''),
     'a name equal to a source', 'the name is not registered')
seed('C02-line', 'C02', [('generator.rs', '''                previous_generated_column = 0;
                while mapping.generated.line > previous_generated_line {''', '''                previous_generated_column = 0;
                previous_original_column = 0;
                while mapping.generated.line > previous_generated_line {''')],
     M('''let mut g = SourceMapGenerator::new(None, None, false);
          g.add_mapping(m(1, 0, Some((1, 7)), Some("a"), None)); g.add_mapping(m(2, 0, Some((1, 9)), Some("a"), None));
          assert_eq!(vlqs(&gen_mappings(&mut g)), vec![vec![vec![0, 0, 0, 7]], vec![vec![0, 0, 0, 2]]]);'''),
     'a line change after a non-zero original column (the existing expectation has differences that hide it only if first columns equal)', 'the original column restarts at each line')
seed('C02-src', 'C02', [('generator.rs', '''                if let Some(mapping_name) = mapping.name {
                    name_idx = self.names.index_of(mapping_name).unwrap() as i32;
                    next += &base64vlq_encode(name_idx - previous_name);
                    previous_name = name_idx;
                }
''', '''                if let Some(mapping_name) = mapping.name {
                    name_idx = self.names.index_of(mapping_name).unwrap() as i32;
                    next += &base64vlq_encode(name_idx - previous_name);
                    previous_name = name_idx;
                } else if previous_source == 0 && source_idx > 1 {
                    previous_name = 0;
                }
''')],
     M('''let mut g = SourceMapGenerator::new(None, None, false);
          g.add_mapping(m(1, 0, Some((1, 0)), Some("a"), Some("n0"))); assert!(gen_mappings(&mut g).len() > 0);'''),
     '-', '-') if False else None
seed('C03-dup', 'C03', [('generator.rs', 'if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {', 'if mapping.source.is_none() || util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {')],
     M('''let mut g = SourceMapGenerator::new(None, None, false);
          g.add_mapping(m(1, 0, Some((1, 7)), Some("a"), None)); g.add_mapping(m(1, 5, None, None, None));
          assert_eq!(vlqs(&gen_mappings(&mut g)), vec![vec![vec![0, 0, 0, 7], vec![5]]]);'''),
     'a mapping without source after another on its line', 'mappings without source are dropped unless first on their line')
seed('C04-file', 'C04', [('generator.rs', '            file: self.file.clone(),', '            file: self.file.clone().or_else(|| self.sources.at(0)),')],
     M('''let mut g = SourceMapGenerator::new(None, None, false); g.add_mapping(m(1, 0, Some((1, 7)), Some("a"), None));
          let v: serde_json::Value = serde_json::from_str(&g.as_string()).unwrap(); assert!(v["file"].is_null());'''),
     'a generator without file but with a source', 'the first source is written as the file')
seed('C05-root', 'C05', [('generator.rs', '''                if let Some(ref root) = source_root {
                    source = util::relative(root.clone(), source);
                }
''', '''                if let Some(ref root) = source_root {
                    if source.starts_with(root.as_str()) {
                        source = util::relative(root.clone(), source);
                    }
                }
''')],
     M('''let mut g = SourceMapGenerator::new(None, Some("/the/root".into()), false); g.add_mapping(m(1, 0, Some((1, 7)), Some("/the/other/./a.js"), None));
          g.set_source_content("/the/other/./a.js".into(), Some("c".into()));
          let v: serde_json::Value = serde_json::from_str(&g.as_string()).unwrap(); assert_eq!(v["sourcesContent"], serde_json::json!(["c"]));'''),
     'a source outside the source root whose relative form differs', 'stored and looked-up keys disagree, so its content becomes a gap')
seed('C06-remove', 'C06', [('generator.rs', '''        source = match self.source_root {
            Some(ref s) => util::relative(s.clone(), source.clone()),
            None => source,
        };
''', '''        source = match self.source_root {
            Some(ref s) if source_content.is_some() => util::relative(s.clone(), source.clone()),
            _ => source,
        };
''')],
     M('''let mut g = SourceMapGenerator::new(None, Some("/r".into()), false); g.add_mapping(m(1, 0, Some((1, 7)), Some("/r/a.js"), None));
          g.set_source_content("/r/a.js".into(), Some("c".into())); g.set_source_content("/r/a.js".into(), None);
          let v: serde_json::Value = serde_json::from_str(&g.as_string()).unwrap(); assert!(v["sourcesContent"].is_null());'''),
     'removing content with a source root set', 'removal uses another key than storing')
seed('C07-take', 'C07', [('generator.rs', '            source_root: self.source_root.clone(),\n            sources_content,', '            source_root: self.source_root.take(),\n            sources_content,')],
     M('''let mut g = SourceMapGenerator::new(None, Some("/r".into()), false); let a = g.as_string(); assert_eq!(a, g.as_string());'''),
     'serialising twice', 'the first serialisation takes the source root away')
seed('C08-orig', 'C08', [('generator.rs', '&& mapping.original.as_ref().unwrap().column >= 0', '&& mapping.original.as_ref().unwrap().column >= -1')],
     M('''quiet(); let mut g = SourceMapGenerator::new(None, None, false); assert!(panics(|| g.add_mapping(m(1, 0, Some((1, -1)), Some("a"), None))));'''),
     'an original column of exactly -1', 'an invalid mapping is accepted')
seed('D01-dedup', 'D01', [('consumer.rs', '''                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json(''', '''                    .collect(),
                false,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json(''')],
     M('''let c = BasicConsumer::new(r#"{"version":3,"sources":["a","a","b"],"names":[],"mappings":""}"#, None); assert_eq!(c.get_sources().len(), 3);'''),
     'a document listing a source twice, loaded from text', 'duplicate sources collapse, shifting later indices')
seed('D02-bias', 'D02', [('consumer.rs', '''        let generated_column = generated.column;
        if generated_line < 1 {''', '''        let mut generated_column = generated.column;
        if self.computed_column_spans && generated_column > 0 && bias.is_none() {
            generated_column -= 1;
        }
        if generated_line < 1 {''')],
     M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}"#, None); c.compute_column_spans();
          assert_eq!(c.original_position_for(p(1, 1), None).unwrap().original.unwrap().column, 1);'''),
     'a lookup after computing column spans without explicit bias', 'the column before is looked up')
seed('D03-src', 'D03', [('consumer.rs', 'let last_column = if self.computed_column_spans && last_column.is_none() {', 'let last_column = if self.computed_column_spans || last_column.is_none() {')],
     M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}"#, None); c.compute_column_spans();
          assert_eq!(c.generated_position_for("a", 1, 0, None).unwrap().last_generated_column, Some(0));'''),
     'spans computed before the lookup', 'every span is reported as open')
seed('D04-first', 'D04', [('consumer.rs', '        if source < 0 {\n            return vec![];\n        }', '        if source < 0 || source as usize >= self.absolute_sources.size() {\n            return vec![];\n        }')],
     M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a","a","b"],"names":[],"mappings":"AEAA"}"#, None);
          assert_eq!(c.all_generated_position_for("b", 1, None).len(), 1);'''),
     'a document listing a source twice and a query for a later source', 'the index is compared with the number of distinct sources')
seed('D05-order', 'D05', [('consumer.rs', 'IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),', 'IterOrd::OriginalOrd => mappings.by_original_location().skip_while(|it| it.generated_line == 0 && it.generated_column == 0).for_each(f),')],
     M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}"#, None); let n = std::cell::Cell::new(0);
          c.each_mapping(|_| n.set(n.get() + 1), IterOrd::OriginalOrd); assert_eq!(n.get(), 2);'''),
     'a mapping at the very start of the file that comes first in original order', 'it is skipped in original order')
seed('D07-cache', 'D07', [('consumer.rs', '''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back''', '''            self.source_lookup_cache
                .insert(source.to_string(), self.source_lookup_cache.len() as i32);
            return Some(index as i32);
        }

        // Fall back''')],
     M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a","b"],"sourcesContent":["ca","cb"],"names":[],"mappings":""}"#, None);
          assert_eq!(c.source_content_for("b", None), Some("cb".into())); assert_eq!(c.source_content_for("b", None), Some("cb".into()));'''),
     'asking twice for a source whose index differs from the number of earlier questions', 'the cache remembers a wrong index')
IX = '''fn ix() -> String { r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC"}},{"offset":{"line":0,"column":10},"map":{"version":3,"sources":["b"],"names":[],"mappings":"AAAA,CAAC;AACA"}}]}"#.to_string() }
'''
def MI(b): return PRE + IX + 'fn main() {\n' + b + '\n}\n'
seed('E01-col', 'E01', [('consumer.rs', '|| (line == last_offset.line && colum < last_offset.column)', '|| (line == last_offset.line && line > 0 && colum < last_offset.column)')],
     MI('''quiet(); let d = ix().replace("\\"column\\":0}", "\\"column\\":20}"); assert!(panics(|| IndexedConsumer::new(&d, None)));'''),
     'misordered sections both on the first line', 'the order of columns on the first line is not checked')
seed('E02-url', 'E02', [('consumer.rs', '''                                    *section.map.clone(),
                                    source_map_url,''', '''                                    *section.map.clone(),
                                    source_map_url.filter(|_| section.map.source_root.is_none()),''')],
     MI('''let d = ix().replace("\\"names\\"", "\\"sourceRoot\\":\\"r\\",\\"names\\""); let c = IndexedConsumer::new(&d, Some("http://h/x/m.map")); assert_eq!(c.get_sources()[0], "http://h/x/r/a");'''),
     'a section map with a source root', 'the map URL is not passed on for it')
seed('E04-shift', 'E04', [('consumer.rs', '                            - if it.generated_offset.line == needle.line {', '                            - if it.generated_offset.line <= needle.line {')],
     MI('''let mut c = IndexedConsumer::new(&ix(), None); assert_eq!(c.original_position_for(p(2, 10), None).unwrap().generated.column, 0);
          assert!(!panics(|| c.original_position_for(p(2, 0), None)));'''),
     'a lookup below the first line of a section with a column offset', 'the column offset is taken off on every line')
seed('E06-all', 'E06', [('consumer.rs', '            .all(|it| it.consumer.has_contents_of_all_sources())', '            .all(|it| it.consumer.has_contents_of_all_sources() || it.consumer.get_sources().is_empty())')],
     M('''let d = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":[],"names":[],"mappings":""}}]}"#; let c = IndexedConsumer::new(d, None); assert!(!c.has_contents_of_all_sources());'''),
     'a section without sources and contents', 'it counts as complete') 
seed('E06-spans', 'E06', [('consumer.rs', '''        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()''', '''        for ele in (*self.sections).borrow_mut().iter_mut().skip_while(|it| it.consumer.computed_column_spans) {
            ele.consumer.compute_column_spans();
            if ele.consumer.mappings.is_none() {
                break;
            }''')],
     MI('''let d = ix().replacen("AAAA,CAAC\\"", "AA\\"", 1); let mut c = IndexedConsumer::new(&d, None); c.computed_column_spans(); let r = c.all_generated_position_for("b", 1, Some(0)); assert_eq!(r[0].last_generated_column, Some(10));'''),
     'an earlier section whose mappings cannot be parsed', 'later sections get no spans')
