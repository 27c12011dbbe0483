# ten: remembered values, state structs, ?-style, small traits and helpers
F='consumer.rs'; A='array_set.rs'; G='generator.rs'; U='util.rs'; M='mapping.rs'; L='mapping_list.rs'; B='binary_search.rs'; V='base64_vlq.rs'; SM='source_map.rs'; B64='base64.rs'
ref('OK10-state', (G,'''    fn serialize_mappings(&mut self) -> String {
        let mut previous_generated_column = 0;
        let mut previous_generated_line = 1;
        let mut previous_original_column = 0;
        let mut previous_original_line = 0;
        let mut previous_name = 0;
        let mut previous_source = 0;
        let mut result''','''    fn serialize_mappings(&mut self) -> String {
        #[derive(Default)]
        struct Previous {
            generated_column: i32,
            original_column: i32,
            original_line: i32,
            name: i32,
            source: i32,
        }
        let mut previous = Previous::default();
        let mut previous_generated_line = 1;
        let mut result'''), (G,'''                previous_generated_column = 0;
                while''','''                previous.generated_column = 0;
                while'''), (G,'''            next += &base64vlq_encode(mapping.generated.column - previous_generated_column);
            previous_generated_column = mapping.generated.column;
''','''            next += &base64vlq_encode(mapping.generated.column - previous.generated_column);
            previous.generated_column = mapping.generated.column;
'''), (G,'''source_idx - previous_source);
                previous_source = source_idx;''','''source_idx - previous.source);
                previous.source = source_idx;'''), (G,'''                    mapping.original.as_ref().unwrap().line - 1 - previous_original_line,
                );
                previous_original_line =''','''                    mapping.original.as_ref().unwrap().line - 1 - previous.original_line,
                );
                previous.original_line ='''), (G,'''                    mapping.original.as_ref().unwrap().column - previous_original_column,
                );
                previous_original_column =''','''                    mapping.original.as_ref().unwrap().column - previous.original_column,
                );
                previous.original_column ='''), (G,'''name_idx - previous_name);
                    previous_name = name_idx;''','''name_idx - previous.name);
                    previous.name = name_idx;'''))
ref('OK10-delta-fn', (G,'''impl SourceMapGenerator {
    pub fn new(''','''fn push_delta(out: &mut String, value: i32, previous: &mut i32) {
    out.push_str(&base64vlq_encode(value - *previous));
    *previous = value;
}

impl SourceMapGenerator {
    pub fn new('''), (G,'''            next += &base64vlq_encode(mapping.generated.column - previous_generated_column);
            previous_generated_column = mapping.generated.column;
''','''            push_delta(&mut next, mapping.generated.column, &mut previous_generated_column);
'''), (G,'''                next += &base64vlq_encode(source_idx - previous_source);
                previous_source = source_idx;
''','''                push_delta(&mut next, source_idx, &mut previous_source);
'''), (G,'''                next += &base64vlq_encode(
                    mapping.original.as_ref().unwrap().line - 1 - previous_original_line,
                );
                previous_original_line = mapping.original.as_ref().unwrap().line - 1;

                next += &base64vlq_encode(
                    mapping.original.as_ref().unwrap().column - previous_original_column,
                );
                previous_original_column = mapping.original.as_ref().unwrap().column;
''','''                let original = mapping.original.as_ref().unwrap();
                push_delta(&mut next, original.line - 1, &mut previous_original_line);
                push_delta(&mut next, original.column, &mut previous_original_column);
'''), (G,'''                    next += &base64vlq_encode(name_idx - previous_name);
                    previous_name = name_idx;
''','''                    push_delta(&mut next, name_idx, &mut previous_name);
'''))
ref('OK10-zip-prev', (G,'''        for i in 0..mappings_len {
            let mapping = mappings[i].clone();''','''        let predecessors = std::iter::once(None).chain(mappings.iter().map(Some));
        for (mapping, predecessor) in mappings.iter().cloned().zip(predecessors).take(mappings_len) {'''), (G,'''            } else if i > 0 {
                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {''','''            } else if let Some(predecessor) = predecessor {
                if util::compare_by_generated_pos_inflated(&mapping, predecessor) == 0 {'''))
ref('OK10-checked', (G,'''            } else if i > 0 {
                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {
                    continue;
                }
                next += ",";
            }''','''            } else if let Some(before) = i.checked_sub(1).map(|at| &mappings[at]) {
                match util::compare_by_generated_pos_inflated(&mapping, before) {
                    0 => continue,
                    _ => next.push(','),
                }
            }'''))
ref('OK10-prev-idx', (G,'''        for i in 0..mappings_len {
            let mapping = mappings[i].clone();''','''        let mut last: Option<usize> = None;
        for i in 0..mappings_len {
            let before = last.replace(i);
            let mapping = mappings[i].clone();'''), (G,'''            } else if i > 0 {
                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {''','''            } else if let Some(before) = before {
                if util::compare_by_generated_pos_inflated(&mapping, &mappings[before]) == 0 {'''))
ref('OK10-prev-clone', (G,'''        for i in 0..mappings_len {
            let mapping = mappings[i].clone();''','''        let mut before: Option<Mapping> = None;
        for i in 0..mappings_len {
            let earlier = before.take();
            before = Some(mappings[i].clone());
            let mapping = mappings[i].clone();'''), (G,'''            } else if i > 0 {
                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {
                    continue;
                }
                next += ",";
            }''','''            } else if let Some(earlier) = earlier {
                if util::compare_by_generated_pos_inflated(&mapping, &earlier) == 0 {
                    continue;
                }
                next += ",";
            }'''))
ref('OK10-sections-for', (F,'''        let last_offset = Arc::new(Mutex::new(Position {
            line: -1,
            column: 0,
        }));
''','''        let mut previous: Option<&Position> = None;
        for section in source_map.sections.as_ref().unwrap() {
            if section.url.is_some() {
                panic!("Section with url is not supported.");
            }
            if section.offset.line < -1 || (section.offset.line == -1 && section.offset.column < 0) {
                panic!("Section offsets must be ordered and non-overlapping.")
            }
            if let Some(previous) = previous {
                if (section.offset.line, section.offset.column) < (previous.line, previous.column) {
                    panic!("Section offsets must be ordered and non-overlapping.")
                }
            }
            previous = Some(&section.offset);
        }
'''), (F,'''                    .map({
                        let last_offset = last_offset;
                        move |section| {
                            if section.url.is_some() {
                                panic!("Section with url is not supported.");
                            }

                            let line''','''                    .map({
                        move |section| {
                            let line'''), (F,'''                            let mut last_offset = last_offset.lock().unwrap();

                            if line < last_offset.line
                                || (line == last_offset.line && colum < last_offset.column)
                            {
                                panic!("Section offsets must be ordered and non-overlapping.")
                            }

                            *last_offset = section.offset.clone();

''',''), (F,'use std::sync::{Arc, Mutex};\n',''))
ref('OK10-ix-gen-q', (F,'''        let index = self.find_source_index(source);
        if let Some(index) = index {
            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                let mut generated_position = section.consumer.generated_position_for(
                    source,
                    original_line,
                    original_column,
                    bias,
                );
                if let Some(ref mut generated_position) = generated_position {
                    let line_shift = section.generated_offset.line - 1;
                    let column_shift = section.generated_offset.column - 1;

                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last_generated_column {
                            *g += column_shift;
                        }
                    }

                    generated_position.generated.line += line_shift;

                    return Some(Position {
                        line: generated_position.generated.line,
                        column: generated_position.generated.column,
                    });
                }
            }
        }

        None
    }
''','''        let index = self.find_source_index(source)? as usize;
        let mut sections = (*self.sections).borrow_mut();
        let section = sections.get_mut(index)?;
        let found = section
            .consumer
            .generated_position_for(source, original_line, original_column, bias)?;
        Some(section.absolute(found.generated))
    }
'''), (F,'''pub struct IndexedConsumer {
    pub source''','''impl Section {
    fn absolute(&self, local: Position) -> Position {
        Position {
            column: match local.line {
                1 => local.column + (self.generated_offset.column - 1),
                _ => local.column,
            },
            line: local.line + (self.generated_offset.line - 1),
        }
    }
}

pub struct IndexedConsumer {
    pub source'''))
ref('OK10-ix-all-mut', (F,'''                section
                    .consumer
                    .all_generated_position_for(source, original_line, original_column)
                    .iter()
                    .map(|mapping| {
                        let mut mapping = mapping.clone();

                        if mapping.generated_line == 0 {
                            mapping.generated_column += column_shift;
                            if let Some(g) = &mut mapping.last_generated_column {
                                *g += column_shift;
                            } else {
                            }
                        }
                        mapping.generated_line += line_shift;

                        if computed_column_spans && mapping.last_generated_column.is_none() {
                            if let Some(next_offset) = &next_offset {
                                if mapping.generated_line == (next_offset.line - 1) as u32 {
                                    mapping
                                        .last_generated_column
                                        .replace((next_offset.column - 1) as u32);
                                }
                            }
                        }

                        mapping
                    })
                    .collect()
''','''                let mut found = section
                    .consumer
                    .all_generated_position_for(source, original_line, original_column);
                for mapping in found.iter_mut() {
                    if mapping.generated_line == 0 {
                        mapping.generated_column += column_shift;
                        mapping.last_generated_column =
                            mapping.last_generated_column.map(|it| it + column_shift);
                    }
                    mapping.generated_line += line_shift;

                    let last_line = next_offset
                        .as_ref()
                        .filter(|it| mapping.generated_line == (it.line - 1) as u32);
                    if computed_column_spans && mapping.last_generated_column.is_none() {
                        mapping.last_generated_column =
                            last_line.map(|it| (it.column - 1) as u32);
                    }
                }
                found
'''))
ref('OK10-ix-each-fn', (F,'''                                let mut mapping = mapping.clone();
                                if mapping.generated_line == 0 {
                                    mapping.generated_column += column_shift as u32;
                                    if let Some(it) = &mut mapping.last_generated_column {
                                        *it += column_shift as u32;
                                    }
                                }

                                mapping.generated_line += line_shift as u32;
                                if let Some''','''                                let mut mapping =
                                    shifted(mapping, line_shift as u32, column_shift as u32);
                                if let Some'''), (F,'''pub struct Section {''','''fn shifted(
    mapping: &source_map_mappings::Mapping,
    lines: u32,
    columns: u32,
) -> source_map_mappings::Mapping {
    let columns = if mapping.generated_line == 0 { columns } else { 0 };
    source_map_mappings::Mapping {
        generated_line: mapping.generated_line + lines,
        generated_column: mapping.generated_column + columns,
        last_generated_column: mapping.last_generated_column.map(|it| it + columns),
        ..mapping.clone()
    }
}

pub struct Section {'''))
ref('OK10-all-letelse', (F,'''        let source = self.find_source_index(source);
        if source.is_none() {
            return vec![];
        }

        let source = source.unwrap();

        if source < 0 {
            return vec![];
        }

        if original_line < 1 {
            panic!("Line numbers must be >= 1");
        }

        if original_column.unwrap_or(0) < 0 {
            panic!("Column numbers must be >= 0");
        }
''','''        let source = match self.find_source_index(source) {
            Some(source) if source >= 0 => source,
            _ => return Vec::new(),
        };

        assert!(original_line >= 1, "Line numbers must be >= 1");
        if let Some(column) = original_column {
            assert!(column >= 0, "Column numbers must be >= 0");
        }
'''))
ref('OK10-orig-and', (F,'''        match mapping {
            Some(mapping) => {
                if mapping.generated_line as i32 == generated_line - 1 {
                    mapping.original.clone().map(|original| Mapping {''','''        match mapping.filter(|it| it.generated_line as i32 + 1 == generated_line) {
            Some(mapping) => {
                {
                    mapping.original.clone().map(|original| Mapping {'''), (F,'''                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })
                } else {
                    None
                }''','''                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })
                }'''))
ref('OK10-gen-orig', (F,'''            Some(mapping) => {
                if mapping.original.as_ref().unwrap().source as i32 == source {
                    let last_column = mapping.last_generated_column;
                    let last_column = if self.computed_column_spans && last_column.is_none() {
                        Some(-1)
                    } else {
                        last_column.map(|it| it as i32)
                    };
''','''            Some(mapping) => {
                let original = mapping.original.as_ref().unwrap();
                if original.source as i32 == source {
                    let last_column = match (mapping.last_generated_column, self.computed_column_spans) {
                        (Some(column), _) => Some(column as i32),
                        (None, true) => Some(-1),
                        (None, false) => None,
                    };
'''), (F,'''                        original: mapping.original.as_ref().map(|it| Position {
                            line: (it.original_line + 1) as i32,
                            column: it.original_column as i32,
                        }),
                        source: mapping
                            .original
                            .as_ref()
                            .map(|it| self.absolute_sources.at(it.source as i32))
                            .flatten(),
                        name: mapping.original.as_ref().and_then(|it| it.name).and_then(|it| {
                            self.source_map.names.as_ref()?.get(it as usize).cloned()
                        }),''','''                        original: Some(Position {
                            line: (original.original_line + 1) as i32,
                            column: original.original_column as i32,
                        }),
                        source: self.absolute_sources.at(original.source as i32),
                        name: match (original.name, &self.source_map.names) {
                            (Some(at), Some(names)) => names.get(at as usize).cloned(),
                            _ => None,
                        },'''))
ref('OK10-find-closure', (F,'''        let source_as_map_relative =
            util::compute_source_url(None, source, self.source_map_url.as_deref());
        if self.absolute_sources.has(source_as_map_relative.clone()) {
            let index = self
                .absolute_sources
                .index_of(source_as_map_relative)
                .unwrap();

            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back to treating the source as sourceRoot-relative.
        let source_as_source_root_relative = util::compute_source_url(
            self.source_map.source_root.as_deref(),
            source,
            self.source_map_url.as_deref(),
        );
        if self
            .absolute_sources
            .has(source_as_source_root_relative.clone())
        {
            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None
    }''','''        let lookup = |root: Option<&str>| {
            let absolute = util::compute_source_url(root, source, self.source_map_url.as_deref());
            self.absolute_sources.index_of(absolute)
        };
        let index = match lookup(None) {
            Some(index) => index,
            None => lookup(self.source_map.source_root.as_deref())?,
        } as i32;
        self.source_lookup_cache.insert(source.to_owned(), index);
        Some(index)
    }'''))
ref('OK10-find-contains', (F,'''        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }
''','''        if self.source_lookup_cache.contains_key(source) {
            return self.source_lookup_cache.get(source).copied();
        }
'''))
ref('OK10-content-q', (F,'''        return match index {
            Some(i) => sources_content.get(i as usize).cloned().flatten(),
            None => {
                if panic_on_missing {
                    panic!(r#""{}" is not in the SourceMap."#, source);
                } else {
                    None
                }
            }
        };''','''        if index.is_none() && panic_on_missing {
            panic!(r#""{}" is not in the SourceMap."#, source);
        }
        let at = index? as usize;
        if at < sources_content.len() {
            sources_content[at].clone()
        } else {
            None
        }'''))
ref('OK10-has-count', (F,'''                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())''','''                let sources = match &self.source_map.sources {
                    Some(sources) => sources.len(),
                    None => 0,
                };
                if s.len() < sources {
                    return false;
                }
                !s.iter().any(Option::is_none)'''))
ref('OK10-each-take', (F,'''        if self.mappings.is_none() {
            match self.parse_mappings() {
                Ok(mappings) => self.mappings = Some(mappings),
                Err(_) => return,
            }
        }
        let mappings = self.mappings.as_mut().unwrap();

        match ord {
            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),
            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),
        }''','''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }
        if let Some(mappings) = &mut self.mappings {
            match ord {
                IterOrd::OriginalOrd => {
                    for mapping in mappings.by_original_location() {
                        f(mapping)
                    }
                }
                IterOrd::GeneratedOrd => {
                    for mapping in mappings.by_generated_location() {
                        f(mapping)
                    }
                }
            }
        }'''))
ref('OK10-ml-merge', (L,'''            self.last = Some(mapping.clone());
            self.array.push(mapping);
        } else {
            self.sorted = false;
            self.array.push(mapping)
        }''','''            self.last = Some(mapping.clone());
        } else {
            self.sorted = false;
        }
        self.array.push(mapping);'''))
ref('OK10-ml-mapor', (L,'''        if generated_position_after(
            &self.last.clone().unwrap_or(Mapping {
                name: None,
                source: None,
                generated: Position {
                    column: -1,
                    line: -1,
                },
                original: None,
                last_generated_column: None,
            }),
            &mapping,
        ) {''','''        let origin = Mapping {
            name: None,
            source: None,
            generated: Position {
                column: -1,
                line: -1,
            },
            original: None,
            last_generated_column: None,
        };
        if generated_position_after(self.last.as_ref().unwrap_or(&origin), &mapping) {'''))
ref('OK10-ml-key', (L,'''                let cmp = util::compare_by_generated_pos_inflated(a, b);
                match cmp {
                    d if d > 0 => std::cmp::Ordering::Greater,
                    d if d == 0 => std::cmp::Ordering::Equal,
                    _ => std::cmp::Ordering::Less,
                }''','''                util::compare_by_generated_pos_inflated(a, b).cmp(&0)'''))
ref('OK10-as-match', (A,'''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();

        if !is_duplicate || allow_duplicates {
            self.array.push(data.clone());
        }
        if !is_duplicate {
            self.set.insert(data, idx);
        }''','''        match (self.index_of(data.clone()), allow_duplicates) {
            (None, _) => {
                self.set.insert(data.clone(), self.array.len());
                self.array.push(data);
            }
            (Some(_), true) => self.array.push(data),
            (Some(_), false) => {}
        }'''))
ref('OK10-as-vacant', (A,'''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();

        if !is_duplicate || allow_duplicates {
            self.array.push(data.clone());
        }
        if !is_duplicate {
            self.set.insert(data, idx);
        }''','''        use std::collections::hash_map::Entry;
        match self.set.entry(data.clone()) {
            Entry::Occupied(_) => {
                if allow_duplicates {
                    self.array.push(data);
                }
            }
            Entry::Vacant(slot) => {
                slot.insert(self.array.len());
                self.array.push(data);
            }
        }'''))
ref('OK10-as-from', (A,'''        let mut array_set = ArraySet::new();
        for i in arr {
            array_set.add(i, allow_duplicates);
        }
        array_set''','''        arr.into_iter().fold(ArraySet::new(), |mut set, it| {
            set.add(it, allow_duplicates);
            set
        })'''))
ref('OK10-as-at', (A,'''        if idx >= 0 && idx < self.array.len() as i32 {
            self.array.get(idx as usize).cloned()
        } else {
            None
        }''','''        let idx: usize = std::convert::TryFrom::try_from(idx).ok()?;
        self.array.get(idx).cloned()'''))
ref('OK10-add-let', (G,'''        let source: Option<String> = mapping.source.clone();
        let name: Option<String> = mapping.name.clone();

        if let Some(ref s) = source {
            if !self.sources.has(s.clone()) {
                self.sources.add(s.clone(), false)
            }
        }

        if let Some(ref n) = name {
            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }
        }

        self.mappings.add(mapping);''','''        self.mappings.add(mapping.clone());
        let Mapping { source, name, .. } = mapping;
        for (entry, set) in [(source, &mut self.sources), (name, &mut self.names)] {
            if let Some(entry) = entry {
                set.add(entry, false);
            }
        }'''))
ref('OK10-conts-get', (G,'''            .map(|mut source| -> Option<String> {
                if let Some(ref root) = source_root {
                    source = util::relative(root.clone(), source);
                }

                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }
            })
            .collect()''','''            .map(|source| match &source_root {
                Some(root) => util::relative(root.to_owned(), source),
                None => source,
            })
            .map(|key| self.source_contents.get(&key).cloned())
            .collect()'''))
ref('OK10-json-then', (G,'''        let sources_vec = self.sources.to_vec();
        let mut sources_content: Option<Vec<Option<String>>> = None;
        if !self.source_contents.is_empty() {
            sources_content = Some(
                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
            );
        }''','''        let sources_vec = self.sources.to_vec();
        let sources_content = (self.source_contents.len() > 0).then(|| {
            self.generate_sources_contents(self.sources.to_vec(), self.source_root.clone())
        });'''))
ref('OK10-b64-bytes', (B64,'''    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(INT_TO_CHAR_MAP[num as usize].parse().unwrap())
    } else {
        None
    }''','''    match num {
        0..=63 => INT_TO_CHAR_MAP[num as usize].chars().next(),
        _ => None,
    }'''))
ref('OK10-vlq-rest', (V,'''    let mut digit: i32;

    let mut vlq = to_vlq_signed(value);

    loop {
        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;

        if vlq > 0 {
            // There are still more digits in this value, so we must make sure the
            // continuation bit is marked.
            digit = ((digit as usize) | VLQ_CONTINUATION_BIT) as i32;
        }
        encoded.push(base64::encode(digit).unwrap());
        if vlq <= 0 {
            break;
        }
    }
    encoded''','''    let mut rest = to_vlq_signed(value) as usize;

    while rest >= VLQ_BASE {
        let digit = (rest & VLQ_BASE_MASK) | VLQ_CONTINUATION_BIT;
        encoded.push(base64::encode(digit as i32).unwrap());
        rest >>= VLQ_BASE_SHIFT;
    }
    encoded.push(base64::encode(rest as i32).unwrap());
    encoded'''))
ref('OK10-vlq-abs', (V,'''    if value < 0 {
        (-value << 1) + 1
    } else {
        value << 1
    }''','''    let sign = if value.is_negative() { 1 } else { 0 };
    (value.abs() << 1) | sign'''))
