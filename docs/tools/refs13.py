F, A, G, U, M, L, B, V, SM, B64 = 'consumer.rs', 'array_set.rs', 'generator.rs', 'util.rs', 'mapping.rs', 'mapping_list.rs', 'binary_search.rs', 'base64_vlq.rs', 'source_map.rs', 'base64.rs'
SER_HEAD = '''        let mappings_len = mappings.len();
        for i in 0..mappings_len {
            let mapping = mappings[i].clone();
            let mut next = "".to_string();
'''
ref('OK13-ser-enum', (G, SER_HEAD, '''        for (i, current) in mappings.iter().enumerate() {
            let mapping = current.clone();
            let mut next = String::with_capacity(16);
'''))
ref('OK13-ser-while', (G, SER_HEAD, '''        let mut cursor = 0;
        while cursor < mappings.len() {
            let i = cursor;
            cursor += 1;
            let mapping = mappings[i].clone();
            let mut next = "".to_string();
'''))
ref('OK13-ser-repeat', (G, '''                previous_generated_column = 0;
                while mapping.generated.line > previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }''', '''                let gap = mapping.generated.line - previous_generated_line;
                next.push_str(&";".repeat(gap as usize));
                previous_generated_line = mapping.generated.line;
                previous_generated_column = 0;'''))
ref('OK13-ser-orig', (G, '''                // lines are stored 0-based in SourceMap spec version 3
                next += &base64vlq_encode(
                    mapping.original.as_ref().unwrap().line - 1 - previous_original_line,
                );
                previous_original_line = mapping.original.as_ref().unwrap().line - 1;

                next += &base64vlq_encode(
                    mapping.original.as_ref().unwrap().column - previous_original_column,
                );
                previous_original_column = mapping.original.as_ref().unwrap().column;
''', '''                // lines are stored 0-based in SourceMap spec version 3
                let original = mapping.original.as_ref().unwrap();
                let (line, column) = (original.line - 1, original.column);
                for piece in [line - previous_original_line, column - previous_original_column].iter() {
                    next.push_str(&base64vlq_encode(*piece));
                }
                previous_original_line = line;
                previous_original_column = column;
'''))
ref('OK13-ser-delta', (G, '''            next += &base64vlq_encode(mapping.generated.column - previous_generated_column);
            previous_generated_column = mapping.generated.column;
''', '''            let step = |to: i32, from: &mut i32| -> String {
                let text = base64vlq_encode(to - *from);
                *from = to;
                text
            };
            next += &step(mapping.generated.column, &mut previous_generated_column);
'''))
ref('OK13-ser-name', (G, '''                if let Some(mapping_name) = mapping.name {
                    name_idx = self.names.index_of(mapping_name).unwrap() as i32;
                    next += &base64vlq_encode(name_idx - previous_name);
                    previous_name = name_idx;
                }''', '''                let named = mapping.name.and_then(|it| self.names.index_of(it));
                if let Some(index) = named {
                    name_idx = index as i32;
                    next += &base64vlq_encode(name_idx - previous_name);
                    previous_name = name_idx;
                }'''))
ref('OK13-add-cond', (G, '''        if let Some(ref s) = source {
            if !self.sources.has(s.clone()) {
                self.sources.add(s.clone(), false)
            }
        }

        if let Some(ref n) = name {
            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }
        }
''', '''        for (set, value) in vec![(&mut self.sources, source), (&mut self.names, name)] {
            if let Some(text) = value {
                set.add(text, false);
            }
        }
'''))
ref('OK13-add-fn', (G, '''        if let Some(ref s) = source {
            if !self.sources.has(s.clone()) {
                self.sources.add(s.clone(), false)
            }
        }

        if let Some(ref n) = name {
            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }
        }
''', '''        fn remember(set: &mut ArraySet, value: &Option<String>) {
            match value.as_deref() {
                Some(text) if !set.has(text.to_owned()) => set.add(text.to_owned(), false),
                _ => {}
            }
        }
        remember(&mut self.sources, &source);
        remember(&mut self.names, &name);
'''))
ref('OK13-val-struct', (G, '''        if (mapping.generated.column >= 0
            && mapping.generated.line > 0
            && mapping.original.is_none()
            && mapping.source.is_none()
            && mapping.name.is_none()) // case 1
            || (mapping.original.is_some()
                && mapping.generated.line > 0
                && mapping.generated.column >= 0
                && mapping.original.as_ref().unwrap().line > 0
                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())
        // case 2, 3
        {
            // case 1 2 3
            Ok(())
        } else {
            Err(())
        }''', '''        fn inside(p: &crate::source_map::Position) -> bool {
            p.line >= 1 && p.column >= 0
        }
        let good = inside(&mapping.generated)
            && match (&mapping.original, &mapping.source, &mapping.name) {
                (None, None, None) => true,
                (Some(original), Some(_), _) => inside(original),
                _ => false,
            };
        if good { Ok(()) } else { Err(()) }'''))
ref('OK13-val-early', (G, '''        if (mapping.generated.column >= 0
            && mapping.generated.line > 0
            && mapping.original.is_none()
            && mapping.source.is_none()
            && mapping.name.is_none()) // case 1
            || (mapping.original.is_some()
                && mapping.generated.line > 0
                && mapping.generated.column >= 0
                && mapping.original.as_ref().unwrap().line > 0
                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())
        // case 2, 3
        {
            // case 1 2 3
            Ok(())
        } else {
            Err(())
        }''', '''        if mapping.generated.line <= 0 || mapping.generated.column < 0 {
            return Err(());
        }
        let original = match &mapping.original {
            None => {
                let bare = mapping.source.is_none() && mapping.name.is_none();
                return bare.then(|| ()).ok_or(());
            }
            Some(it) => it,
        };
        if original.line <= 0 || original.column < 0 {
            return Err(());
        }
        mapping.source.as_ref().map(|_| ()).ok_or(())'''))
ref('OK13-gsc-loop', (G, '''        sources
            .into_iter()
            .map(|mut source| -> Option<String> {
                if let Some(ref root) = source_root {
                    source = util::relative(root.clone(), source);
                }

                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }
            })
            .collect()''', '''        let mut contents = Vec::with_capacity(sources.len());
        for source in sources {
            let key = match &source_root {
                None => source,
                Some(root) => util::relative(root.clone(), source),
            };
            contents.push(self.source_contents.get(&key).cloned());
        }
        contents'''))
ref('OK13-json-then', (G, '''        let mut sources_content: Option<Vec<Option<String>>> = None;
        if !self.source_contents.is_empty() {
            sources_content = Some(
                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
            );
        }
        SourceMapJson {''', '''        let sources_content = match self.source_contents.len() {
            0 => None,
            _ => {
                let root = self.source_root.clone();
                let listed = self.generate_sources_contents(sources_vec.to_vec(), root);
                Some(listed)
            }
        };
        SourceMapJson {'''))
ref('OK13-ssc-swap', (G, '''        let mut source = source_file;
        source = match self.source_root {
            Some(ref s) => util::relative(s.clone(), source.clone()),
            None => source,
        };

        if let Some(content) = source_content {
            self.source_contents.insert(source, content);
        } else {
            self.source_contents.remove(&source);
        }''', '''        let source = if let Some(root) = self.source_root.as_ref() {
            util::relative(root.to_string(), source_file)
        } else {
            source_file
        };
        match source_content {
            None => {
                self.source_contents.remove(&source);
            }
            Some(content) => {
                *self.source_contents.entry(source).or_default() = content;
            }
        }'''))
ref('OK13-as-add', (A, '''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();

        if !is_duplicate || allow_duplicates {
            self.array.push(data.clone());
        }
        if !is_duplicate {
            self.set.insert(data, idx);
        }''', '''        if self.has(data.clone()) {
            if allow_duplicates {
                self.array.push(data);
            }
            return;
        }
        self.set.insert(data.clone(), self.array.len());
        self.array.push(data);'''))
ref('OK13-as-entry', (A, '''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();

        if !is_duplicate || allow_duplicates {
            self.array.push(data.clone());
        }
        if !is_duplicate {
            self.set.insert(data, idx);
        }''', '''        use std::collections::hash_map::Entry;
        match self.set.entry(data) {
            Entry::Occupied(slot) => {
                if allow_duplicates {
                    self.array.push(slot.key().clone());
                }
            }
            Entry::Vacant(slot) => {
                let text = slot.key().clone();
                slot.insert(self.array.len());
                self.array.push(text);
            }
        }'''))
ref('OK13-as-fold', (A, '''        let mut array_set = ArraySet::new();
        for i in arr {
            array_set.add(i, allow_duplicates);
        }
        array_set''', '''        arr.into_iter().fold(ArraySet::new(), |mut set, item| {
            set.add(item, allow_duplicates);
            set
        })'''))
ref('OK13-as-at', (A, '''        if idx >= 0 && idx < self.array.len() as i32 {
            self.array.get(idx as usize).cloned()
        } else {
            None
        }''', '''        if idx < 0 {
            return None;
        }
        self.array.iter().nth(idx as usize).map(|it| it.to_string())'''))
ref('OK13-ml-add', (L, '''            self.last = Some(mapping.clone());
            self.array.push(mapping);
        } else {
            self.sorted = false;
            self.array.push(mapping)
        }''', '''            self.last = Some(mapping.clone());
        } else {
            self.sorted = false;
        }
        self.array.push(mapping);'''))
ref('OK13-ml-sort', (L, '''        if !self.sorted {
            self.array.sort_by(|a, b| {
                let cmp = util::compare_by_generated_pos_inflated(a, b);
                match cmp {
                    d if d > 0 => std::cmp::Ordering::Greater,
                    d if d == 0 => std::cmp::Ordering::Equal,
                    _ => std::cmp::Ordering::Less,
                }
            });
            self.sorted = true;
        }

        self.array.clone()''', '''        if self.sorted {
            return self.array.clone();
        }
        let mut sorted = std::mem::take(&mut self.array);
        sorted.sort_by(|a, b| util::compare_by_generated_pos_inflated(a, b).cmp(&0));
        self.array = sorted.clone();
        self.sorted = true;
        sorted'''))
ref('OK13-vlq-shift', (V, '''        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;

        if vlq > 0 {
            // There are still more digits in this value, so we must make sure the
            // continuation bit is marked.
            digit = ((digit as usize) | VLQ_CONTINUATION_BIT) as i32;
        }
        encoded.push(base64::encode(digit).unwrap());
        if vlq <= 0 {
            break;
        }''', '''        let low = vlq % (VLQ_BASE as i64);
        vlq /= VLQ_BASE as i64;
        let more = vlq != 0;
        digit = (low + if more { VLQ_CONTINUATION_BIT as i64 } else { 0 }) as i32;
        encoded.push(base64::encode(digit).expect("a base 64 digit"));
        if !more {
            break;
        }'''))
ref('OK13-vlq-bytes', (V, '''    let mut encoded = String::new();
    let mut digit: i32;

    let mut vlq = to_vlq_signed(value);

    loop {
        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;

        if vlq > 0 {
            // There are still more digits in this value, so we must make sure the
            // continuation bit is marked.
            digit = ((digit as usize) | VLQ_CONTINUATION_BIT) as i32;
        }
        encoded.push(base64::encode(digit).unwrap());
        if vlq <= 0 {
            break;
        }
    }
    encoded''', '''    let mut encoded = String::new();
    let mut rest = to_vlq_signed(value) as u64;
    while rest >= VLQ_BASE as u64 {
        let digit = (rest & VLQ_BASE_MASK as u64) | VLQ_CONTINUATION_BIT as u64;
        encoded.push(base64::encode(digit as i32).unwrap());
        rest >>= VLQ_BASE_SHIFT;
    }
    encoded.push(base64::encode(rest as i32).unwrap());
    encoded'''))
ref('OK13-fsi-iter', (F, '''        let source_as_map_relative =
            util::compute_source_url(None, source, self.source_map_url.as_deref());
        if self.absolute_sources.has(source_as_map_relative.clone()) {
            let index = self
                .absolute_sources
                .index_of(source_as_map_relative)
                .unwrap();

            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back to treating the source as sourceRoot-relative.
        let source_as_source_root_relative = util::compute_source_url(
            self.source_map.source_root.as_deref(),
            source,
            self.source_map_url.as_deref(),
        );
        if self
            .absolute_sources
            .has(source_as_source_root_relative.clone())
        {
            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None''', '''        let roots = [None, self.source_map.source_root.as_deref()];
        let mut found = None;
        for root in roots.iter() {
            let url = util::compute_source_url(*root, source, self.source_map_url.as_deref());
            if let Some(index) = self.absolute_sources.index_of(url) {
                found = Some(index as i32);
                break;
            }
        }
        let index = found?;
        self.source_lookup_cache.insert(source.to_string(), index);
        Some(index)'''))
ref('OK13-ensure', (F, '''    fn parse_mappings(&self) -> Result''', '''    fn ensure_parsed(&mut self) -> Option<&mut source_map_mappings::Mappings> {
        if self.mappings.is_none() {
            if let Ok(parsed) = self.parse_mappings() {
                self.mappings.replace(parsed);
            }
        }
        self.mappings.as_mut()
    }

    fn parse_mappings(&self) -> Result'''),
 (F, '''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return vec![],
        };

        mappings
            .all_generated_locations_for(
                source as u32,
                (original_line - 1) as u32,
                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()''', '''        self.ensure_parsed().map_or_else(Vec::new, |mappings| {
            mappings
                .all_generated_locations_for(
                    source as u32,
                    (original_line - 1) as u32,
                    original_column.map(|it| it as u32),
                )
                .cloned()
                .collect()
        })'''),
 (F, '''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();
        self.computed_column_spans = true;''', '''        let ready = match self.ensure_parsed() {
            Some(mappings) => {
                mappings.compute_column_spans();
                true
            }
            None => false,
        };
        if ready {
            self.computed_column_spans = true;
        }'''))
ref('OK13-all-q', (F, '''        let source = self.find_source_index(source);
        if source.is_none() {
            return vec![];
        }

        let source = source.unwrap();

        if source < 0 {
            return vec![];
        }

        if original_line < 1 {
            panic!("Line numbers must be >= 1");
        }

        if original_column.unwrap_or(0) < 0 {
            panic!("Column numbers must be >= 0");
        }
''', '''        let source = match self.find_source_index(source) {
            Some(index) if index >= 0 => index,
            _ => return Vec::new(),
        };
        assert!(original_line >= 1, "Line numbers must be >= 1");
        if let Some(column) = original_column {
            assert!(column >= 0, "Column numbers must be >= 0");
        }
'''))
ref('OK13-opf-filter', (F, '''        match mapping {
            Some(mapping) => {
                if mapping.generated_line as i32 == generated_line - 1 {
                    mapping.original.clone().map(|original| Mapping {''', '''        let same_line = |it: &source_map_mappings::Mapping| it.generated_line as i32 + 1 == generated_line;
        match mapping.filter(same_line) {
            Some(mapping) => {
                if mapping.original.is_some() {
                    mapping.original.clone().map(|original| Mapping {'''))
ref('OK13-pub', (F, '''                    mapping.original.clone().map(|original| Mapping {
                        name: original
                            .name
                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),
                        source: self.absolute_sources.at(original.source as i32),
                        original: Some(Position {
                            line: (original.original_line + 1) as i32,
                            column: original.original_column as i32,
                        }),
                        generated: Position {
                            line: (mapping.generated_line + 1) as i32,
                            column: mapping.generated_column as i32,
                        },
                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })''', '''                    let original = mapping.original.clone()?;
                    let name = match (original.name, &self.source_map.names) {
                        (Some(index), Some(names)) => names.get(index as usize).cloned(),
                        _ => None,
                    };
                    let at = |line: u32, column: u32| Position {
                        line: line as i32 + 1,
                        column: column as i32,
                    };
                    Some(Mapping {
                        name,
                        source: self.absolute_sources.at(original.source as i32),
                        original: Some(at(original.original_line, original.original_column)),
                        generated: at(mapping.generated_line, mapping.generated_column),
                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })'''))
ref('OK13-hcas', (F, '''        match self.source_map.sources_content {
            Some(ref s) => {
                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())
            }
            None => false,
        }''', '''        let contents = match &self.source_map.sources_content {
            None => return false,
            Some(list) => list,
        };
        for content in contents {
            if content.is_none() {
                return false;
            }
        }
        let wanted = self.source_map.sources.as_ref().map(Vec::len).unwrap_or_default();
        wanted <= contents.len()'''))
ref('OK13-scf', (F, '''        self.source_map.sources_content.as_ref()?;

        let sources_content = self.source_map.sources_content.clone().unwrap();
        let panic_on_missing = panic_on_missing.unwrap_or(true);

        let index = self.find_source_index(source);
        return match index {
            Some(i) => sources_content.get(i as usize).cloned().flatten(),
            None => {
                if panic_on_missing {
                    panic!(r#""{}" is not in the SourceMap."#, source);
                } else {
                    None
                }
            }
        };''', '''        if self.source_map.sources_content.is_none() {
            return None;
        }
        if let Some(index) = self.find_source_index(source) {
            let contents = self.source_map.sources_content.as_ref()?;
            return contents.get(index as usize).and_then(|it| it.clone());
        }
        if let Some(false) = panic_on_missing {
            return None;
        }
        panic!(r#""{}" is not in the SourceMap."#, source)'''))
ref('OK13-each-early', (F, '''        if self.mappings.is_none() {
            match self.parse_mappings() {
                Ok(mappings) => self.mappings = Some(mappings),
                Err(_) => return,
            }
        }
        let mappings = self.mappings.as_mut().unwrap();

        match ord {
            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),
            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),
        }''', '''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }
        if let Some(mappings) = self.mappings.as_mut() {
            match ord {
                IterOrd::GeneratedOrd => {
                    for mapping in mappings.by_generated_location() {
                        f(mapping);
                    }
                }
                IterOrd::OriginalOrd => {
                    let mut listed = mappings.by_original_location();
                    while let Some(mapping) = listed.next() {
                        f(mapping);
                    }
                }
            }
        }'''))
ref('OK13-bs-linear', (B, '''    while index > 0 {
        if compare2(&hay_stack[index as usize], &hay_stack[(index - 1) as usize]) != 0 {
            break;
        }
        index -= 1;
    }

    index''', '''    loop {
        if index == 0 {
            return index;
        }
        let (here, before) = (&hay_stack[index as usize], &hay_stack[index as usize - 1]);
        if compare2(here, before) != 0 {
            return index;
        }
        index -= 1;
    }'''))
ref('OK13-bs-match', (B, '''    #[allow(clippy::comparison_chain)]
    if cmp == 0 {
        // Found the element we are looking for.
        return mid;
    } else if cmp > 0 {
        // Our needle is greater than aHaystack[mid].
        if high - mid > 1 {
            // The element is in the upper half.
            return recursive_search(mid, high, needle, hay_stack, compare, bias);
        }
        // The exact needle element was not found in this haystack. Determine if
        // we are in termination case (3) or (2) and return the appropriate thing.
        if bias == LEAST_UPPER_BOUND {
            return if high < hay_stack.len() as i32 {
                high
            } else {
                -1
            };
        }
        return mid;
    }

    // Our needle is less than aHaystack[mid].
    if mid - low > 1 {
        return recursive_search(low, mid, needle, hay_stack, compare, bias);
    }

    // we are in termination case (3) or (2) and return the appropriate thing.
    if bias == LEAST_UPPER_BOUND {
        return mid;
    }

    if low < 0 {
        -1
    } else {
        low
    }''', '''    let upper = bias == LEAST_UPPER_BOUND;
    match cmp.signum() {
        0 => mid,
        1 if high - mid > 1 => recursive_search(mid, high, needle, hay_stack, compare, bias),
        1 if upper && (high as usize) < hay_stack.len() => high,
        1 if upper => -1,
        1 => mid,
        _ if mid - low > 1 => recursive_search(low, mid, needle, hay_stack, compare, bias),
        _ if upper => mid,
        _ => low.max(-1),
    }'''))
ref('OK13-ix-fold', (F, '''        let last_offset = Arc::new(Mutex::new(Position {
            line: -1,
            column: 0,
        }));
''', '''        if let Some(listed) = source_map.sections.as_ref() {
            if listed.is_empty() {
                return IndexedConsumer {
                    sections: Rc::new(RefCell::new(Vec::new())),
                    source_map,
                };
            }
        }

        let last_offset = Arc::new(Mutex::new(Position {
            line: -1,
            column: 0,
        }));
'''))
ref('OK13-ix-gpf', (F, '''        let index = self.find_source_index(source);
        if let Some(index) = index {
            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                let mut generated_position = section.consumer.generated_position_for(
                    source,
                    original_line,
                    original_column,
                    bias,
                );
                if let Some(ref mut generated_position) = generated_position {
                    let line_shift = section.generated_offset.line - 1;
                    let column_shift = section.generated_offset.column - 1;

                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last_generated_column {
                            *g += column_shift;
                        }
                    }

                    generated_position.generated.line += line_shift;

                    return Some(Position {
                        line: generated_position.generated.line,
                        column: generated_position.generated.column,
                    });
                }
            }
        }

        None''', '''        let index = self.find_source_index(source)? as usize;
        let mut sections = self.sections.borrow_mut();
        let section = sections.get_mut(index)?;
        let local = section
            .consumer
            .generated_position_for(source, original_line, original_column, bias)?
            .generated;
        let offset = &section.generated_offset;
        let shift = if local.line == 1 { offset.column - 1 } else { 0 };
        Some(Position {
            line: local.line + offset.line - 1,
            column: local.column + shift,
        })'''))
ref('OK13-ix-scf', (F, '''        for section in (*self.sections).borrow_mut().iter_mut() {
            if let Some(it) = section
                .consumer
                .source_content_for(source, Some(false))
            {
                return Some(it);
            }
        }

        let panic_on_missing = panic_on_missing.unwrap_or(true);
        if panic_on_missing {
            panic!("\\"{}\\"is not in the SourceMap.", source)
        } else {
            None
        }''', '''        let content = self
            .sections
            .borrow_mut()
            .iter_mut()
            .find_map(|section| section.consumer.source_content_for(source, Some(false)));
        match (content, panic_on_missing) {
            (Some(text), _) => Some(text),
            (None, Some(false)) => None,
            _ => panic!("\\"{}\\"is not in the SourceMap.", source),
        }'''))
ref('OK13-ix-opf-key', (F, '''            |a, b| {
                if a.line - b.generated_offset.line != 0 {
                    a.line - b.generated_offset.line
                } else {
                    // The needle's column is 0-based, the stored offset is 1-based.
                    a.column - (b.generated_offset.column - 1)
                }
            },
            |a, b| {
                if a.generated_offset.line - b.generated_offset.line != 0 {
                    a.generated_offset.line - b.generated_offset.line
                } else {
                    a.generated_offset.column - b.generated_offset.column
                }
            },''', '''            |a, b| match a.line - b.generated_offset.line {
                0 => a.column + 1 - b.generated_offset.column,
                lines => lines,
            },
            |a, b| {
                let (x, y) = (&a.generated_offset, &b.generated_offset);
                let lines = x.line - y.line;
                if lines == 0 { x.column - y.column } else { lines }
            },'''))
ref('OK13-ix-opf-shift', (F, '''                .map(|mut mapping| {
                    if mapping.generated.line == 1 {
                        mapping.generated.column += it.generated_offset.column - 1;
                        if let Some(last) = &mut mapping.last_generated_column {
                            *last += it.generated_offset.column - 1;
                        }
                    }
                    mapping.generated.line += it.generated_offset.line - 1;
                    mapping
                })''', '''                .map(|mapping| {
                    let by = match mapping.generated.line {
                        1 => it.generated_offset.column - 1,
                        _ => 0,
                    };
                    Mapping {
                        generated: Position {
                            line: mapping.generated.line + it.generated_offset.line - 1,
                            column: mapping.generated.column + by,
                        },
                        last_generated_column: mapping.last_generated_column.map(|last| last + by),
                        ..mapping
                    }
                })'''))
ref('OK13-ix-spans', (F, '''        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }''', '''        let mut sections = self.sections.borrow_mut();
        let count = sections.len();
        let mut i = 0;
        while i < count {
            sections[i].consumer.compute_column_spans();
            i += 1;
        }'''))
