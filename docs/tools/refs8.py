F='consumer.rs'; A='array_set.rs'; G='generator.rs'; U='util.rs'; M='mapping.rs'; L='mapping_list.rs'; B='binary_search.rs'; V='base64_vlq.rs'; SM='source_map.rs'; B64='base64.rs'
ref('OK8-rpos', (F, '''        for i in 0..(*self.sections).borrow().len() {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());''','''        let last = (*self.sections).borrow().iter().rposition(|it| !it.consumer.get_sources().is_empty());
        for i in 0..last.map_or(0, |it| it + 1) {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());'''))
ref('OK8-rpos2', (F, '''        for i in 0..(*self.sections).borrow().len() {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());''','''        let last = (*self.sections).borrow().iter().rposition(|_| true);
        for i in 0..last.map_or(0, |it| it + 1) {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());'''))
# ---- structural rewrites with a slip
ref('B04-pp', (B,'''    while index > 0 {
        if compare2(&hay_stack[index as usize], &hay_stack[(index - 1) as usize]) != 0 {
            break;
        }
        index -= 1;
    }

    index''','''    let found = index as usize;
    hay_stack[..=found]
        .iter()
        .position(|it| compare2(it, &hay_stack[found]) <= 0)
        .map_or(index, |it| it as i32)'''))
ref('OK8-pp', (B,'''    while index > 0 {
        if compare2(&hay_stack[index as usize], &hay_stack[(index - 1) as usize]) != 0 {
            break;
        }
        index -= 1;
    }

    index''','''    let found = index as usize;
    hay_stack[..=found]
        .iter()
        .position(|it| compare2(it, &hay_stack[found]) == 0)
        .map_or(index, |it| it as i32)'''), (B,'let mut index','let index'))
ref('E03-rpos', (F,'''        let section_index = binary_search::search(
            needle.clone(),
            &(*self.sections).borrow(),
            |a, b| {
                if a.line - b.generated_offset.line != 0 {
                    a.line - b.generated_offset.line
                } else {
                    // The needle's column is 0-based, the stored offset is 1-based.
                    a.column - (b.generated_offset.column - 1)
                }
            },
            |a, b| {
                if a.generated_offset.line - b.generated_offset.line != 0 {
                    a.generated_offset.line - b.generated_offset.line
                } else {
                    a.generated_offset.column - b.generated_offset.column
                }
            },
            None,
        );
''','''        let section_index = (*self.sections)
            .borrow()
            .iter()
            .rposition(|it| {
                (it.generated_offset.line, it.generated_offset.column - 1) <= (needle.line, needle.column)
            })
            .map_or(-1, |it| it as i32);
'''))
ref('E03-tw', (F,'''        let section_index = binary_search::search(
            needle.clone(),
            &(*self.sections).borrow(),
            |a, b| {
                if a.line - b.generated_offset.line != 0 {
                    a.line - b.generated_offset.line
                } else {
                    // The needle's column is 0-based, the stored offset is 1-based.
                    a.column - (b.generated_offset.column - 1)
                }
            },
            |a, b| {
                if a.generated_offset.line - b.generated_offset.line != 0 {
                    a.generated_offset.line - b.generated_offset.line
                } else {
                    a.generated_offset.column - b.generated_offset.column
                }
            },
            None,
        );
''','''        let section_index = (*self.sections)
            .borrow()
            .iter()
            .take_while(|it| {
                it.generated_offset.line <= needle.line && it.generated_offset.column - 1 <= needle.column
            })
            .count() as i32 - 1;
'''))
ref('E03-find', (F,'''            if consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }''','''            if consumer.get_sources().iter().any(|it| it == source) {
                return Some(i as i32);
            }'''))
ref('D06-count', (F,'''                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())''','''                s.iter().filter(|it| it.is_some()).count()
                    >= self.source_map.sources.as_ref().map_or(0, |it| it.len())'''))
ref('OK8-d06zip', (F,'''                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())''','''                let n = self.source_map.sources.as_ref().map_or(0, |it| it.len());
                s.len() >= n && s.iter().take(n).all(|it| it.is_some())'''))
ref('D06-zip', (F,'''                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())''','''                self.source_map
                    .sources
                    .iter()
                    .flatten()
                    .zip(s.iter())
                    .all(|(_, it)| it.is_some())'''))
ref('D06-empty', (F,'''            Some(i) => sources_content.get(i as usize).cloned().flatten(),''','''            Some(i) => sources_content.get(i as usize).cloned().flatten().filter(|it| !it.is_empty()),'''))
ref('D06-fallb', (F,'''            Some(i) => sources_content.get(i as usize).cloned().flatten(),''','''            Some(i) => sources_content
                .get(i as usize)
                .or_else(|| sources_content.last())
                .cloned()
                .flatten(),'''))
ref('E06-all', (F,'''            .all(|it| it.consumer.has_contents_of_all_sources())''','''            .filter(|it| it.consumer.source_map.sources_content.is_some())
            .all(|it| it.consumer.has_contents_of_all_sources())'''))
ref('E06-spans', (F,'''        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }''','''        if let Some(last) = (*self.sections).borrow().last() {
            if last.consumer.computed_column_spans {
                return;
            }
        }
        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }'''))
ref('E06-spanany', (F,'''        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }''','''        (*self.sections).borrow_mut().iter_mut().all(|it| {
            it.consumer.compute_column_spans();
            it.consumer.computed_column_spans
        });'''))
ref('D11-flag', (F,'''        mappings.compute_column_spans();
        self.computed_column_spans = true;''','''        self.computed_column_spans = mappings.by_generated_location().len() > 1;
        mappings.compute_column_spans();'''))
ref('D05-dedup', (F,'''            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),''','''            IterOrd::GeneratedOrd => {
                let all = mappings.by_generated_location();
                for (i, it) in all.iter().enumerate() {
                    if i > 0
                        && all[i - 1].generated_line == it.generated_line
                        && all[i - 1].generated_column == it.generated_column
                    {
                        continue;
                    }
                    f(it)
                }
            }'''))
ref('OK8-d05-skip', (F,'''            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),''','''            IterOrd::OriginalOrd => {
                let mut it = mappings.by_original_location().peekable();
                while let Some(m) = it.next() {
                    if it.peek().is_none() && m.original.is_none() {
                        break;
                    }
                    f(m)
                }
            }'''))
ref('D02-zero', (F,'''                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })''','''                        last_generated_column: mapping
                            .last_generated_column
                            .filter(|it| *it > mapping.generated_column)
                            .map(|it| it as i32),
                    })'''))
ref('D02-name', (F,'''                        name: original
                            .name
                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),
                        source: self''','''                        name: original
                            .name
                            .filter(|it| *it > 0 || original.original_line > 0)
                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),
                        source: self'''))
ref('D03-lub', (F,'''                if mapping.original.as_ref().unwrap().source as i32 == source {
                    let last_column''','''                if mapping.original.as_ref().unwrap().source as i32 == source
                    && (mapping.original.as_ref().unwrap().original_line as i32) < i32::from(i16::MAX)
                {
                    let last_column'''))
ref('D04-dd', (F,'''                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()''','''                original_column.map(|it| it as u32),
            )
            .filter(|it| it.original.is_some())
            .take(u16::MAX as usize)
            .cloned()
            .collect()'''))
ref('D01-url', (F,'''            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(''','''            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: {
                let mut set = ArraySet::new();
                let mut seen = std::collections::HashSet::new();
                for it in source_map.sources.iter().flatten() {
                    let url = util::compute_source_url(
                        source_map.source_root.as_deref(),
                        it,
                        source_map_url,
                    );
                    set.add(url, seen.insert(it.clone()));
                }
                set
            },
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map('''))
ref('D07-trim', (F,'''        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {''','''        let cached_index = self.source_lookup_cache.get(source.trim_start_matches("./"));
        if let Some(&index) = cached_index {'''))
ref('D07-ins', (F,'''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall''','''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            if let Some(url) = self.absolute_sources.at(index as i32 + 1) {
                self.source_lookup_cache.insert(url, index as i32 + 1);
            }
            return Some(index as i32);
        }

        // Fall'''))
ref('E01-win', (F,'''                            if line < last_offset.line
                                || (line == last_offset.line && colum < last_offset.column)''','''                            if (line, colum) < (last_offset.line, last_offset.column) && line >= 0 && colum > 0'''))
ref('E02-url', (F,'''                            if section.url.is_some() {''','''                            if section.url.as_ref().map_or(false, |it| !it.is_empty()) {'''))
ref('E04-next', (F,'''                                if mapping.generated_line == (next_offset.line - 1) as u32 {''','''                                if mapping.generated_line == (next_offset.line - 1) as u32
                                    && mapping.generated_column < (next_offset.column - 1) as u32
                                {'''))
ref('E04-eachcol', (F,'''                                if mapping.generated_line == 0 {
                                    mapping.generated_column += column_shift as u32;
                                    if let Some(it) = &mut mapping.last_generated_column {
                                        *it += column_shift as u32;
                                    }
                                }
''','''                                if mapping.generated_line == 0 {
                                    mapping.generated_column += column_shift as u32;
                                    if let Some(it) = mapping.last_generated_column.as_mut().filter(|it| **it > 0) {
                                        *it += column_shift as u32;
                                    }
                                }
'''))
ref('C01-name', (G,'''        let name: Option<String> = mapping.name.clone();
''','''        let name: Option<String> = mapping.name.clone().filter(|it| Some(it) != mapping.source.as_ref());
'''))
ref('C01-dupe', (G,'''        self.mappings.add(mapping);
    }

    pub fn set''','''        let dup = !self.skip_validation
            && self.mappings.to_array().last().map_or(false, |it| {
                util::compare_by_generated_pos_inflated(it, &mapping) == 0
            });
        if !dup {
            self.mappings.add(mapping);
        }
    }

    pub fn set'''))
ref('C02-src', (G,'''                next += &base64vlq_encode(source_idx - previous_source);
                previous_source = source_idx;
''','''                next += &base64vlq_encode(source_idx - previous_source);
                if source_idx > previous_source || mapping.name.is_none() {
                    previous_source = source_idx;
                }
'''))
ref('C03-cap', (G,'''                while mapping.generated.line > previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }''','''                let gap = (mapping.generated.line - previous_generated_line) as u16;
                next += &";".repeat(gap as usize);
                previous_generated_line = mapping.generated.line;'''))
ref('OK8-rep', (G,'''                while mapping.generated.line > previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }''','''                let gap = mapping.generated.line - previous_generated_line;
                next += &";".repeat(gap as usize);
                previous_generated_line = mapping.generated.line;'''))
ref('C05-pos', (G,'''                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }
            })
            .collect()''','''                self.source_contents.get(&source).cloned()
            })
            .rev()
            .skip_while(|it| it.is_none())
            .collect::<Vec<_>>()
            .into_iter()
            .rev()
            .collect()'''))
ref('C06-rm', (G,'''            self.source_contents.remove(&source);''','''            let prefix = format!("{}/", source);
            self.source_contents
                .retain(|it, _| it != &source && !it.starts_with(&prefix));'''))
ref('OK8-rm', (G,'''            self.source_contents.remove(&source);''','''            self.source_contents.retain(|it, _| it != &source);'''))
ref('C08-both', (G,'''                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())''','''                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.as_ref().map_or(false, |it| !it.is_empty()))'''))
ref('B01-at', (A,'''        if idx >= 0 && idx < self.array.len() as i32 {
            self.array.get(idx as usize).cloned()
        } else {
            None
        }''','''        let n = self.array.len() as i32;
        self.array.get(idx.rem_euclid(n.max(1)) as usize).filter(|_| idx < n && idx >= -1).cloned()'''))
ref('B01-case', (A,'''        let is_duplicate = self.has(data.clone());''','''        let is_duplicate = self.has(data.clone()) || self.array.last() == Some(&data.trim_end().to_string());'''))
ref('B03-stable', (L,'''            self.array.push(mapping);''','''            self.array.push(mapping.clone());
            self.array.dedup_by(|a, b| {
                a.last_generated_column.is_some()
                    && util::compare_by_generated_pos_inflated(a, b) == 0
            });'''))
ref('F01-bs', (U,'''    let max_dot_parts = input.split("..").count() - 1;''','''    let max_dot_parts = input.split('/').filter(|it| *it == "..").count();'''))
ref('OK8-bs', (U,'''    let max_dot_parts = input.split("..").count() - 1;''','''    let max_dot_parts = input.matches("..").count();'''))
ref('F03-lead', (U,'''    let mut relative_path: String = root_parts
        .iter()
        .map(|_| "..")''','''    let mut relative_path: String = root_parts
        .iter()
        .filter(|it| !it.is_empty())
        .map(|_| "..")'''))
ref('F04-frag', (U,'''        Ok(url) => url.as_str().chars().skip(placeholder.len()).collect(),''','''        Ok(url) => url[url::Position::BeforePath..].to_string(),'''))
ref('F05-port', (U,'''        || target_url.port() != root_url.port()''','''        || target_url.port_or_known_default().unwrap_or(80) != root_url.port_or_known_default().unwrap_or(80)'''))
ref('F02-dbl', (U,'''    let after = source_url.replacen("/", "", 1);
''','''    let after = source_url.trim_start_matches("./").replacen("/", "", 1);
'''))
ref('G05-u16', (F,'''                line: needle.line - (it.generated_offset.line - 1),''','''                line: needle.line - (it.generated_offset.line as u16 as i32 - 1),'''))
ref('B02-len', (U,'''    if a.unwrap() > b.unwrap() {
        return 1;
    }

    -1''','''    let (a, b) = (a.unwrap(), b.unwrap());
    if (a.len(), &a) > (b.len(), &b) {
        return 1;
    }

    -1'''))
ref('OK8-d05-f', (F,'''            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),''','''            IterOrd::OriginalOrd => mappings
                .by_original_location()
                .filter(|it| it.original.is_some())
                .for_each(f),'''))
ref('OK8-d04-f', (F,'''                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()''','''                original_column.map(|it| it as u32),
            )
            .filter(|it| it.original.is_some())
            .cloned()
            .collect()'''))
ref('OK8-d04-f2', (F,'''                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()''','''                original_column.map(|it| it as u32),
            )
            .filter(|it| it.original.as_ref().map_or(false, |it| it.source == source as u32))
            .cloned()
            .collect()'''))
ref('D05-skip2', (F,'''            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),''','''            IterOrd::GeneratedOrd => {
                let mut it = mappings.by_generated_location().iter().peekable();
                while let Some(m) = it.next() {
                    if it.peek().is_none() && m.original.is_none() {
                        break;
                    }
                    f(m)
                }
            }'''))
