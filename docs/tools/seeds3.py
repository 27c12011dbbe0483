exec(open('/verif/docs/tools/seeds1.py').read().split("seed('A01-mask'")[0])
MI = lambda body: M(IXFN + body)
IXFN = '''fn ix() -> String { r#"{"version":3,"sections":[{"offset":{"line":0,"column":3},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAE"}},
  {"offset":{"line":1,"column":5},"map":{"version":3,"sources":["b"],"names":[],"mappings":"AAAA;AACA"}}]}"#.to_string() }
'''
F = 'consumer.rs'
seed('B02-case', 'B02', [('util.rs', '    if a.unwrap() > b.unwrap() {', '    if a.unwrap().to_lowercase() > b.unwrap().to_lowercase() {')],
  M('''let a = m(1, 0, None, None, Some("A")); let b = m(1, 0, None, None, Some("a")); assert_eq!(util::compare_by_generated_pos_inflated(&a, &b), -util::compare_by_generated_pos_inflated(&b, &a));'''),
  'names that differ in case only', 'each comes before the other')
seed('B03-first', 'B03', [('mapping_list.rs', '''            self.sorted = true;
        }

        self.array.clone()''', '''            (self.sorted, self.last) = (true, self.array.first().cloned());
        }

        self.array.clone()''')],
  M('''let mut l = MappingList::new(); for c in [9, 2] { l.add(m(1, c, None, None, None)); } l.to_array(); l.add(m(1, 5, None, None, None));
       let v: Vec<i32> = l.to_array().iter().map(|x| x.generated.column).collect(); assert_eq!(v, [2, 5, 9]);'''),
  'an addition between the first and the last mapping after the list was sorted', 'the remembered last mapping is the first after sorting, so the addition counts as in order') 
seed('D07-neg', 'D07', [(F, '''                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None
    }

    pub fn get_sources''', '''                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        self.source_lookup_cache.insert(source.to_string(), -1);
        None
    }

    pub fn get_sources'''), (F, '        if let Some(&index) = cached_index {\n            return Some(index);', '        if let Some(&index) = cached_index {\n            return Some(index).filter(|it| *it >= 0 || self.source_map.file.is_some());')],
  M('''quiet(); let mut c = BasicConsumer::new(r#"{"version":3,"file":"f","sources":["a"],"sourcesContent":["x"],"names":[],"mappings":"AAAA"}"#, None);
       assert!(panics(|| c.source_content_for("zz", None))); assert!(panics(|| c.source_content_for("zz", None)));'''),
  'asking twice for a source that is not listed, in a document with a file name', 'the failed lookup is remembered as a listed source')
seed('E06-contains', 'E06', [(F, '            sources.extend((*self.sections).borrow()[i].consumer.get_sources());', '''            let list = (*self.sections).borrow()[i].consumer.get_sources();
            sources.extend(list.into_iter().filter(|it| i == 0 || it.as_str() != "b"));'''), (F, '''        for i in 0..(*self.sections).borrow().len() {
''', '''        let count = (*self.sections).borrow().len();
        for i in 0..count {
''')],
  MI('''let c = IndexedConsumer::new(&ix(), None); assert_eq!(c.get_sources(), ["a", "b"]);'''), 'a source with a particular name in a later section', 'it is not listed')
seed('D06-default', 'D06', [(F, '''        let panic_on_missing = panic_on_missing.unwrap_or(true);

        let index''', '''        let panic_on_missing = panic_on_missing.unwrap_or(!sources_content.is_empty());

        let index''')],
  M('''quiet(); let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"sourcesContent":[],"names":[],"mappings":""}"#, None); assert!(panics(|| c.source_content_for("zz", None)));'''),
  'an unlisted source, the default, and an empty list of contents', 'it answers with nothing instead of failing')
seed('F05-host', 'F05', [('util.rs', 'target_url.host() != root_url.host()', 'target_url.domain() != root_url.domain()')],
  M('''assert_eq!(util::relative("http://1.2.3.4/a".into(), "http://5.6.7.8/a/b".into()), "http://5.6.7.8/a/b");'''), 'hosts given as addresses', 'different addresses count as the same host')
seed('E03-first', 'E03', [(F, '            .get_mut(section_index as usize)', '            .get_mut(section_index.max(0) as usize)')],
  MI('''quiet(); let d = ix().replace("\\"line\\":0", "\\"line\\":1").replace("\\"line\\":1,\\"column\\":5", "\\"line\\":2,\\"column\\":5"); let mut c = IndexedConsumer::new(&d, None);
     assert!(!panics(|| assert!(c.original_position_for(p(1, 0), None).is_none())));'''), 'a position before the first section', 'the first section is asked, and fails')
seed('B04-steps', 'B04', [('binary_search.rs', '''    while index > 0 {
        if compare2(''', '''    let found = index;
    while index > 0 && found - index < 16 {
        if compare2(''')],
  M('''let v = vec![7; 64]; assert_eq!(binary_search::search(7, &v, |a, b| a - b, |a: &i32, b| a - b, None), 0);'''), 'more than sixteen equal elements before the one found', 'a later one of them is answered')
seed('D05-name', 'D05', [(F, 'mappings.by_original_location().for_each(f),', '''mappings
                .by_original_location()
                .filter(|it| it.original.as_ref().map_or(false, |it| it.name != Some(0) || it.original_line > 0))
                .for_each(f),''')],
  M('''let mut c = BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":["n"],"mappings":"AAAAA,EAAE"}"#, None); let k = std::cell::Cell::new(0); c.each_mapping(|_| k.set(k.get() + 1), IterOrd::OriginalOrd); assert_eq!(k.get(), 2);'''),
  'original order and the first name used on the first line', 'that mapping is not visited')
seed('D01-empty', 'D01', [(F, '''    pub fn get_sources(&self) -> Vec<String> {
        self.absolute_sources.to_vec()''', '''    pub fn get_sources(&self) -> Vec<String> {
        let count = self.source_map.sources.as_ref().map_or(0, |it| it.iter().filter(|it| !it.is_empty()).count());
        self.absolute_sources.to_vec().into_iter().take(count).collect()''')],
  M('''let c = BasicConsumer::new(r#"{"version":3,"sources":["","a"],"names":[],"mappings":""}"#, None); assert_eq!(c.get_sources().len(), 2);'''), 'a listed source with an empty name', 'the last source is left out')
seed('C04-blank', 'C04', [('generator.rs', '            file: self.file.clone(),', '            file: self.file.clone().filter(|it| !it.trim().is_empty()),')],
  M('''let mut g = SourceMapGenerator::new(Some(" ".into()), None, false); let v: serde_json::Value = serde_json::from_str(&g.as_string()).unwrap(); assert_eq!(v["file"], " ");'''), 'a file name of white space', 'the file is left out')
seed('C06-suffix', 'C06', [('generator.rs', '            self.source_contents.remove(&source);', '            self.source_contents\n                .retain(|key, _| !key.ends_with(source.as_str()));')],
  M('''let mut g = SourceMapGenerator::new(None, None, false); for s in ["a.js", "ba.js"] { g.add_mapping(m(1, 0, Some((1, 0)), Some(s), None)); g.set_source_content(s.into(), Some("x".into())); }
     g.set_source_content("a.js".into(), None); let v: serde_json::Value = serde_json::from_str(&g.as_string()).unwrap(); assert_eq!(v["sourcesContent"][1], "x");'''), 'removing the content of a source whose name is the end of another', 'both contents are removed')
seed('E02-col', 'E02', [(F, '                                    column: colum + 1,', '                                    column: if line > 0 { colum.max(0) } else { colum } + 1,'), (F, '                                    line: line + 1,', '                                    line: (line + 1).max(1),')],
  MI('''quiet(); let d = ix().replace("\\"line\\":0", "\\"line\\":-1"); let mut c = IndexedConsumer::new(&d, None); let q = c.original_position_for(p(2, 1), None); let r = c.generated_position_for("a", 1, 0, None).unwrap(); assert_eq!(r.line, 0);'''), 'an offset with a negative line', 'it is moved to line 0')
seed('D02-names', 'D02', [(F, '''                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),
                        source: self''', '''                            .and_then(|it| self.source_map.names.as_ref()?.get(it as u16 as usize).cloned()),
                        source: self'''), (F, '''                            line: (original.original_line + 1) as i32,
                            column: original.original_column as i32,
                        }),
                        generated: Position {''', '''                            line: original.original_line as i32 + 1,
                            column: original.original_column as i32,
                        }),
                        generated: Position {''')],
  M('''let n: Vec<String> = (0..65537).map(|i| format!("\\"n{}\\"", i)).collect(); let mut c = BasicConsumer::new(&format!(r#"{{"version":3,"sources":["a"],"names":[{}],"mappings":"AAAA{}"}}"#, n.join(","), base64vlq_encode(65536)), None);
     assert_eq!(c.original_position_for(p(1, 0), None).unwrap().name.unwrap(), "n65536");'''), 'a name past the first 65536', 'another name is answered')
seed('E04-zero', 'E04', [(F, '''                                    mapping.generated_column += column_shift as u32;
                                    if let Some(it) = &mut mapping.last_generated_column {
                                        *it += column_shift as u32;
                                    }''', '''                                    mapping.generated_column += column_shift as u32;
                                    if let Some(it) = mapping.last_generated_column.as_mut().filter(|it| **it > 0) {
                                        *it += column_shift as u32;
                                    }''')],
  MI('''let mut c = IndexedConsumer::new(&ix().replace("AAAA,EAAE", "AAAA,AACA"), None); c.computed_column_spans(); let v = std::cell::RefCell::new(vec![]); c.each_mapping(|it| v.borrow_mut().push((it.generated_column, it.last_generated_column)), IterOrd::GeneratedOrd);
     assert_eq!(v.borrow()[0], (3, Some(3)));'''), 'spans, and a mapping of one column at the start of a section', 'its end is not shifted')
