F, A, G, U, M, L, B, V, SM, B64 = 'consumer.rs', 'array_set.rs', 'generator.rs', 'util.rs', 'mapping.rs', 'mapping_list.rs', 'binary_search.rs', 'base64_vlq.rs', 'source_map.rs', 'base64.rs'
# bugs
ref('B12-A01-clamp', (V,'''    let value = i64::from(value);
''','''    let value = i64::from(value.max(-i32::MAX));
'''))
ref('B12-A01-seven', (V,'''        if vlq <= 0 {
            break;
        }''','''        if vlq <= 0 || encoded.len() == 6 {
            break;
        }'''))
ref('B12-A02-62', (B64,'''    if 0 <= num && num < INT''','''    if 0 <= num && num as u16 as i32 <= 63 && num < INT'''))
ref('B12-A02-u8', (B64,'''    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {''','''    if (num as u8 as usize) < INT_TO_CHAR_MAP.len() && num < 256 {'''))
ref('B12-B01-trim', (A,'''        self.set.contains_key(data.as_str())''','''        !self.set.is_empty() && self.set.contains_key(data.trim_end_matches('\\0'))'''))
ref('B12-B01-idx', (A,'''        let idx = self.array.len();

        if !''','''        let idx = self.set.len();

        if !'''))
ref('B12-B01-fromcap', (A,'''        for i in arr {
            array_set.add(i, allow_duplicates);
        }''','''        let mut previous = None;
        for i in arr {
            if previous.as_ref() != Some(&i) {
                array_set.add(i.clone(), allow_duplicates);
            }
            previous = Some(i);
        }'''))
ref('B12-B02-len', (U,'''    if a.unwrap() > b.unwrap() {
        return 1;
    }

    -1
}''','''    let (a, b) = (a.unwrap(), b.unwrap());
    if a.len() != b.len() && a.starts_with(&b) | b.starts_with(&a) {
        return a.len() as i32 - b.len() as i32;
    }
    if a > b {
        return 1;
    }

    -1
}''') )
ref('B12-B02-name', (U,'''    if a.original.is_some() && b.original.is_some() {
        cmp = a''','''    if let (Some(x), Some(y)) = (&a.original, &b.original) {
        if x.line == y.line && x.column == y.column && a.source.is_none() {
            return 0;
        }
        cmp = a'''))
ref('B12-B03-last', (L,'''            self.last = Some(mapping.clone());
            self.array.push(mapping);
        } else {
            self.sorted = false;
            self.array.push(mapping)''','''            self.last = Some(mapping.clone());
            self.array.push(mapping);
        } else {
            self.sorted = false;
            self.last = Some(mapping.clone());
            self.array.push(mapping)'''), (L,'''            self.sorted = true;
        }
''','''            self.sorted = true;
            self.last = None;
        }
'''))
ref('B12-B03-lastnone', (L,'''            self.sorted = true;
        }
''','''            self.sorted = true;
            self.last = None;
        }
'''))
ref('B12-B03-unstable', (L,'''            self.array.sort_by(|a, b| {''','''            self.array.sort_unstable_by(|a, b| {'''))
ref('B12-B04-eq', (B,'''    while index > 0 {
        if compare2''','''    while index > 1 {
        if compare2'''))
ref('B12-C01-last', (G,'''            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }''','''            if !self.names.has(n.clone()) && mapping.original.is_some() {
                self.names.add(n.clone(), false);
            }'''))
ref('B12-C02-wrap', (G,'''                next += &base64vlq_encode(source_idx - previous_source);
                previous_source = source_idx;''','''                next += &base64vlq_encode(source_idx - previous_source);
                if mapping.original.is_some() && source_idx != 0 {
                    previous_source = source_idx;
                }'''))
ref('B12-C03-source', (G,'''                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {
                    continue;''','''                if mapping.name.is_none()
                    && util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0
                {
                    continue;'''))
ref('B12-C05-first', (G,'''                if self.source_contents.contains_key(&source) {''','''                if self.source_contents.contains_key(&source) && !self.source_contents[&source].is_empty() {'''))
ref('B12-C06-root', (G,'''            Some(ref s) => util::relative(s.clone(), source.clone()),
            None => source,
        };

        if''','''            Some(ref s) if !s.is_empty() => util::relative(s.clone(), source.clone()),
            _ => source,
        };

        if'''))
ref('B12-C08-col', (G,'''                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())''','''                && mapping.original.as_ref().unwrap().column >= 0
                && (mapping.source.is_some() || mapping.name.is_some()))'''))
ref('B12-D02-line', (F,'''                if mapping.generated_line as i32 == generated_line - 1 {''','''                if mapping.generated_line as i32 == generated_line - 1
                    || (generated_column == 0 && mapping.generated_line as i32 == generated_line)
                {'''))
ref('B12-D03-lastcol', (F,'''                    let last_column = if self.computed_column_spans && last_column.is_none() {''','''                    let last_column = if self.computed_column_spans && last_column.unwrap_or(0) == 0 {'''))
ref('B12-D04-first', (F,'''                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()''','''                original_column.map(|it| it as u32),
            )
            .filter(|it| it.original.as_ref().map_or(true, |o| o.source as i32 == source || o.name.is_none()))
            .cloned()
            .collect()'''))
ref('B12-D06-idx', (F,'''            Some(i) => sources_content.get(i as usize).cloned().flatten(),''','''            Some(i) => sources_content
                .get(i as usize)
                .or_else(|| sources_content.last())
                .cloned()
                .flatten(),'''))
ref('B12-D07-key', (F,'''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall''','''            self.source_lookup_cache
                .insert(source.to_lowercase(), index as i32);
            return Some(index as i32);
        }

        // Fall'''))
ref('B12-D11-err', (F,'''            None => return,
        };
        mappings.compute_column_spans();
        self.computed''','''            None => {
                self.computed_column_spans = self.source_map.mappings.is_none();
                return;
            }
        };
        mappings.compute_column_spans();
        self.computed'''))
ref('B12-E01-col', (F,'''                                || (line == last_offset.line && colum < last_offset.column)
                            {''','''                                || (line == last_offset.line && line > 0 && colum < last_offset.column)
                            {'''))
ref('B12-E03-zero', (F,'''                    a.column - (b.generated_offset.column - 1)
''','''                    (a.column - (b.generated_offset.column - 1)).max(-1)
                        - (a.column == 0 && b.generated_offset.line == 1) as i32 * 0
'''))
ref('B12-E03-clampcol', (F,'''                    a.column - (b.generated_offset.column - 1)
''','''                    a.column.min(0xffff) - (b.generated_offset.column - 1)
'''))
ref('B12-E04-next', (F,'''                .get(index as usize + 1)
                .map(|it| it.generated_offset.clone());''','''                .iter()
                .skip(index as usize + 1)
                .last()
                .map(|it| it.generated_offset.clone());'''))
ref('B12-E06-all', (F,'''            .all(|it| it.consumer.has_contents_of_all_sources())''','''            .all(|it| {
                it.consumer.source_map.sources.is_none() || it.consumer.has_contents_of_all_sources()
            })'''))
ref('B12-F02-two', (U,'''    let after = source_url.replacen("/", "", 1);
''','''    let after = source_url.trim_start_matches("/").to_string();
'''))
ref('B12-F02-root', (U,'''    let source_root = source_root.filter(|it| !it.is_empty());''','''    let source_root = source_root.filter(|it| !it.is_empty() && *it != "/");'''))
ref('B12-F03-root', (U,'''        && target_parts.front().unwrap() == root_parts.front().unwrap()
    {''','''        && target_parts.front().unwrap() == root_parts.front().unwrap()
        && target_parts.len() > 1
    {'''))
ref('B12-F04-scheme', (U,'''    if path_t == SchemeRelative {
        return NORMALIZE(path.to_string());
    }

    if root_t == SchemeRelative {''','''    if path_t == SchemeRelative && root_t != SchemeRelative {
        return NORMALIZE(path.to_string());
    }

    if root_t == SchemeRelative {'''))
ref('B12-F05-user', (U,'''        || target_url.username() != root_url.username()
        || target_url.password() != root_url.password()''','''        || target_url.username() != root_url.username()
        || (target_url.password() != root_url.password() && !target_url.username().is_empty())'''))
ref('B12-F01-type', (U,'''    if first == Some('/') {
        if second == Some('/') {''','''    if first == Some('/') {
        if second == Some('/') && input.len() > 2 {'''))
ref('B12-C09-alias', (SM,'''    #[serde(rename = "sourceRoot")]
    #[serde''','''    #[serde(rename(serialize = "sourceRoot", deserialize = "source_root"))]
    #[serde'''))
ref('B12-C07-take', (G,'''            file: self.file.clone(),
            source_root: self.source_root.clone(),
            sources_content,''','''            file: self.file.take(),
            source_root: self.source_root.clone(),
            sources_content,'''))
ref('B12-D09-cache', (F,'''            return Some(index as i32);
        }

        None
    }

    pub fn get_sources(&self)''','''            return Some(index as i32);
        }

        if let Some(names) = self.source_map.names.as_mut() {
            names.shrink_to_fit();
            names.dedup();
        }
        None
    }

    pub fn get_sources(&self)'''))
ref('B12-D05-gen', (F,'''            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),
        }''','''            IterOrd::GeneratedOrd => mappings
                .by_generated_location()
                .iter()
                .filter(|it| it.original.is_some() || it.generated_line < 1 << 24)
                .for_each(f),
        }'''))
