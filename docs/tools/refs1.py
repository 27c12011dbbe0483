ref('OK-vlq-while', ('base64_vlq.rs', '''    let mut encoded = String::new();
    let mut digit: i32;

    let mut vlq = to_vlq_signed(value);

    loop {
        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;

        if vlq > 0 {
            // There are still more digits in this value, so we must make sure the
            // continuation bit is marked.
            digit = ((digit as usize) | VLQ_CONTINUATION_BIT) as i32;
        }
        encoded.push(base64::encode(digit).unwrap());
        if vlq <= 0 {
            break;
        }
    }
    encoded''', '''    let mut encoded = String::new();
    let mut rest = to_vlq_signed(value) as u64;
    while rest >= VLQ_BASE as u64 {
        let low = (rest & VLQ_BASE_MASK as u64) as i32;
        encoded.push(base64::encode(low | VLQ_CONTINUATION_BIT as i32).unwrap());
        rest >>= VLQ_BASE_SHIFT;
    }
    encoded.push(base64::encode(rest as i32).unwrap());
    encoded'''))
ref('OK-vlq-signed', ('base64_vlq.rs', '''    if value < 0 {
        (-value << 1) + 1
    } else {
        value << 1
    }''', '''    let magnitude = value.abs() << 1;
    if value >= 0 {
        return magnitude;
    }
    magnitude | 1'''))
ref('OK-b64-match', ('base64.rs', '''    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(INT_TO_CHAR_MAP[num as usize].parse().unwrap())
    } else {
        None
    }''', '''    if !(0..INT_TO_CHAR_MAP.len() as i32).contains(&num) {
        return None;
    }
    INT_TO_CHAR_MAP[num as usize].chars().next()'''))
ref('OK-b64-get', ('base64.rs', '''    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(INT_TO_CHAR_MAP[num as usize].parse().unwrap())
    } else {
        None
    }''', '''    match num {
        0..=63 => INT_TO_CHAR_MAP.get(num as usize).and_then(|it| it.chars().next()),
        _ => None,
    }'''))
ref('OK-set-at', ('array_set.rs', '''        if idx >= 0 && idx < self.array.len() as i32 {
            self.array.get(idx as usize).cloned()
        } else {
            None
        }''', '''        if idx < 0 {
            return None;
        }
        self.array.get(idx as usize).map(|it| it.to_string())'''))
ref('OK-set-add', ('array_set.rs', '''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();

        if !is_duplicate || allow_duplicates {
            self.array.push(data.clone());
        }
        if !is_duplicate {
            self.set.insert(data, idx);
        }''', '''        if self.has(data.clone()) {
            if allow_duplicates {
                self.array.push(data);
            }
            return;
        }
        self.set.insert(data.clone(), self.array.len());
        self.array.push(data);'''))
ref('OK-set-entry', ('array_set.rs', '''        if !is_duplicate {
            self.set.insert(data, idx);
        }''', '''        self.set.entry(data).or_insert(idx);'''))
ref('OK-set-from', ('array_set.rs', '''        for i in arr {
            array_set.add(i, allow_duplicates);
        }
''', '''        arr.into_iter().for_each(|it| array_set.add(it, allow_duplicates));
'''))
ref('OK-set-idx', ('array_set.rs', 'self.set.get(data.as_str()).cloned()', 'match self.set.get(&data) {\n            Some(it) => Some(*it),\n            None => None,\n        }'))
ref('OK-strcmp-match', ('util.rs', '''    if a == b {
        return 0;
    }

    if a.is_none() {
        return 1;
    }

    if b.is_none() {
        return -1;
    }

    if a.unwrap() > b.unwrap() {
        return 1;
    }

    -1
''', '''    match (a, b) {
        (None, None) => 0,
        (None, Some(_)) => 1,
        (Some(_), None) => -1,
        (Some(a), Some(b)) => a.cmp(&b) as i32,
    }
'''))
ref('OK-cmp-then', ('util.rs', '''    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = a.generated.column.cmp(&b.generated.column) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = strcmp''', '''    let ord = a.generated.line.cmp(&b.generated.line).then(a.generated.column.cmp(&b.generated.column));
    if ord != std::cmp::Ordering::Equal {
        return ord as i32;
    }

    let mut cmp = strcmp'''))
ref('OK-cmp-iflet', ('util.rs', '''    if a.original.is_some() && b.original.is_some() {
        cmp = a
            .original
            .as_ref()
            .unwrap()
            .line
            .cmp(&b.original.as_ref().unwrap().line) as i32;
        if cmp != 0 {
            return cmp;
        }

        cmp = a
            .original
            .as_ref()
            .unwrap()
            .column
            .cmp(&b.original.as_ref().unwrap().column) as i32;
        if cmp != 0 {
            return cmp;
        }
    }
''', '''    if let (Some(x), Some(y)) = (a.original.as_ref(), b.original.as_ref()) {
        let by_line = x.line.cmp(&y.line) as i32;
        let by_column = x.column.cmp(&y.column) as i32;
        if by_line != 0 {
            return by_line;
        } else if by_column != 0 {
            return by_column;
        }
    }
'''))
ref('OK-list-add', ('mapping_list.rs', '''        if generated_position_after(
            &self.last.clone().unwrap_or(Mapping {
                name: None,
                source: None,
                generated: Position {
                    column: -1,
                    line: -1,
                },
                original: None,
                last_generated_column: None,
            }),
            &mapping,
        ) {
            self.last = Some(mapping.clone());
            self.array.push(mapping);
        } else {
            self.sorted = false;
            self.array.push(mapping)
        }''', '''        let first = Mapping {
            name: None,
            source: None,
            generated: Position { column: -1, line: -1 },
            original: None,
            last_generated_column: None,
        };
        let in_order = generated_position_after(self.last.as_ref().unwrap_or(&first), &mapping);
        if in_order {
            self.last = Some(mapping.clone());
        } else {
            self.sorted = false;
        }
        self.array.push(mapping);'''))
ref('OK-list-match', ('mapping_list.rs', '''                let cmp = util::compare_by_generated_pos_inflated(a, b);
                match cmp {
                    d if d > 0 => std::cmp::Ordering::Greater,
                    d if d == 0 => std::cmp::Ordering::Equal,
                    _ => std::cmp::Ordering::Less,
                }''', '''                util::compare_by_generated_pos_inflated(a, b).cmp(&0)'''))
ref('OK-list-iter', ('mapping_list.rs', '''        for (index, mapping) in self.array.iter().enumerate() {
            callback(mapping, index);
        }''', '''        let mut index = 0;
        while index < self.array.len() {
            callback(&self.array[index], index);
            index += 1;
        }'''))
ref('OK-list-after', ('mapping_list.rs', '''    line_b > line_a
        || (line_b == line_a && column_b >= column_a)
        || util::compare_by_generated_pos_inflated(a, b) <= 0''', '''    if line_b > line_a {
        return true;
    }
    if line_a == line_b && column_a <= column_b {
        return true;
    }
    util::compare_by_generated_pos_inflated(a, b) <= 0'''))
ref('OK-list-toarr', ('mapping_list.rs', '''        if !self.sorted {
            self.array.sort_by(''', '''        self.ensure_sorted();
        self.array.clone()
    }

    fn ensure_sorted(&mut self) {
        if !self.sorted {
            self.array.sort_by('''), ('mapping_list.rs', '''            self.sorted = true;
        }

        self.array.clone()
    }''', '''            self.sorted = true;
        }
    }'''))
ref('OK-gen-add', ('generator.rs', '''        let source: Option<String> = mapping.source.clone();
        let name: Option<String> = mapping.name.clone();

        if let Some(ref s) = source {
            if !self.sources.has(s.clone()) {
                self.sources.add(s.clone(), false)
            }
        }

        if let Some(ref n) = name {
            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }
        }
''', '''        if let Some(name) = mapping.name.as_ref() {
            self.names.add(name.to_string(), false);
        }
        if let Some(source) = &mapping.source {
            self.sources.add(source.clone(), false);
        }
'''))
ref('OK-gen-content', ('generator.rs', '''        let mut source = source_file;
        source = match self.source_root {
            Some(ref s) => util::relative(s.clone(), source.clone()),
            None => source,
        };

        if let Some(content) = source_content {
            self.source_contents.insert(source, content);
        } else {
            self.source_contents.remove(&source);
        }''', '''        let key = self.content_key(source_file);
        match source_content {
            None => {
                self.source_contents.remove(&key);
            }
            Some(content) => {
                self.source_contents.insert(key, content);
            }
        }
    }

    fn content_key(&self, source: String) -> String {
        self.source_root.clone().map_or(source.clone(), |root| util::relative(root, source))'''))
ref('OK-gen-valid', ('generator.rs', '''        if (mapping.generated.column >= 0
            && mapping.generated.line > 0
            && mapping.original.is_none()
            && mapping.source.is_none()
            && mapping.name.is_none()) // case 1
            || (mapping.original.is_some()
                && mapping.generated.line > 0
                && mapping.generated.column >= 0
                && mapping.original.as_ref().unwrap().line > 0
                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())
        // case 2, 3
        {
            // case 1 2 3
            Ok(())
        } else {
            Err(())
        }''', '''        if mapping.generated.line < 1 || mapping.generated.column < 0 {
            return Err(());
        }
        match (&mapping.original, &mapping.source, &mapping.name) {
            (None, None, None) => Ok(()),
            (Some(original), Some(_), _) if original.line >= 1 && original.column > -1 => Ok(()),
            _ => Err(()),
        }'''))
ref('OK-gen-ser-zip', ('generator.rs', '''        let mappings_len = mappings.len();
        for i in 0..mappings_len {
            let mapping = mappings[i].clone();
''', '''        for (i, mapping) in mappings.iter().enumerate() {
            let mapping = mapping.clone();
'''))
ref('OK-gen-ser-helper', ('generator.rs', '''            if mapping.generated.line > previous_generated_line {
                previous_generated_column = 0;
                while mapping.generated.line > previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }
            } else if i > 0 {
                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {
                    continue;
                }
                next += ",";
            }
''', '''            if mapping.generated.line == previous_generated_line {
                if i > 0 {
                    let duplicate = util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0;
                    if duplicate {
                        continue;
                    }
                    next.push(',');
                }
            } else {
                previous_generated_column = 0;
                while mapping.generated.line > previous_generated_line {
                    next.push(';');
                    previous_generated_line += 1;
                }
            }
'''))
ref('OK-gen-ser-orig', ('generator.rs', '''                next += &base64vlq_encode(
                    mapping.original.as_ref().unwrap().line - 1 - previous_original_line,
                );
                previous_original_line = mapping.original.as_ref().unwrap().line - 1;

                next += &base64vlq_encode(
                    mapping.original.as_ref().unwrap().column - previous_original_column,
                );
                previous_original_column = mapping.original.as_ref().unwrap().column;
''', '''                let original = mapping.original.as_ref().unwrap();
                let line = original.line - 1;
                let column = original.column;
                next.push_str(&base64vlq_encode(line - previous_original_line));
                next.push_str(&base64vlq_encode(column - previous_original_column));
                previous_original_line = line;
                previous_original_column = column;
'''))
ref('OK-gen-ser-repeat', ('generator.rs', '''                while mapping.generated.line > previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }
''', '''                next.push_str(&";".repeat((mapping.generated.line - previous_generated_line) as usize));
                previous_generated_line = mapping.generated.line;
'''))
ref('OK-gen-conts-loop', ('generator.rs', '''        sources
            .into_iter()
            .map(|mut source| -> Option<String> {
                if let Some(ref root) = source_root {
                    source = util::relative(root.clone(), source);
                }

                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }
            })
            .collect()''', '''        let mut contents = Vec::with_capacity(sources.len());
        for source in sources {
            let key = match source_root.as_ref() {
                Some(root) => util::relative(root.to_string(), source),
                None => source,
            };
            contents.push(self.source_contents.get(&key).cloned());
        }
        contents'''))
ref('OK-gen-json', ('generator.rs', '''        let mut sources_content: Option<Vec<Option<String>>> = None;
        if !self.source_contents.is_empty() {
            sources_content = Some(
                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
            );
        }
        SourceMapJson {
            version: 3,
            sources: Some(sources_vec),
            names: Some(self.names.to_vec()),
            mappings: Some(self.serialize_mappings()),''', '''        let mappings = self.serialize_mappings();
        let sources_content = if self.source_contents.len() > 0 {
            Some(self.generate_sources_contents(self.sources.to_vec(), self.source_root.clone()))
        } else {
            None
        };
        SourceMapJson {
            version: 3,
            sources: Some(sources_vec),
            names: Some(self.names.to_vec()),
            mappings: Some(mappings),'''))
