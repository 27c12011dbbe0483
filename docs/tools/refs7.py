F='consumer.rs'; A='array_set.rs'; G='generator.rs'; U='util.rs'; M='mapping.rs'; L='mapping_list.rs'; B='binary_search.rs'; V='base64_vlq.rs'; SM='source_map.rs'; B64='base64.rs'
ref('OK7-dom', (U,'''        || target_url.host() != root_url.host()''','''        || target_url.domain() != root_url.domain() || target_url.host() != root_url.host()'''))
ref('OK7-len', (U,'''    if first == Some('/') {
        if second == Some('/') {''','''    if first == Some('/') {
        if input.len() > 1 && second == Some('/') {'''))
ref('OK7-empty', (G,'''            } else if i > 0 {''','''            } else if !result.is_empty() {'''))
ref('OK7-last', (G,'''                next += ",";
            }''','''                if result.chars().last() != Some(';') {
                    next += ",";
                }
            }'''))
ref('OK7-semi', (G,'''            result += &next;''','''            if !next.is_empty() {
                result += &next;
            }'''))
ref('C03-semi', (G,'''                next += ",";
            }''','''                if !result.ends_with('/') {
                    next += ",";
                }
            }'''))
# consumer: sections
ref('OK7-e1-fold', (F,'''                    .iter()
                    .map({
                        let last_offset = last_offset;
                        move |section| {
                            if section.url''','''                    .iter()
                    .enumerate()
                    .map({
                        let last_offset = last_offset;
                        move |(_i, section)| {
                            if section.url'''))
ref('E01-skip', (F,'''                            *last_offset = section.offset.clone();
''','''                            if line > 0 || colum > 0 {
                                *last_offset = section.offset.clone();
                            }
'''))
ref('E01-last2', (F,'''                            *last_offset = section.offset.clone();
''','''                            last_offset.line = last_offset.line.max(line);
                            last_offset.column = last_offset.column.max(colum);
'''))
ref('OK7-e6-flat', (F,'''        for i in 0..(*self.sections).borrow().len() {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
        }
''','''        for section in (*self.sections).borrow().iter() {
            let mut own = section.consumer.get_sources();
            sources.append(&mut own);
        }
'''))
ref('E06-contains', (F,'''            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
''','''            for s in (*self.sections).borrow()[i].consumer.get_sources() {
                if i == 0 || !sources.contains(&s) {
                    sources.push(s);
                }
            }
'''))
ref('E06-all', (F,'''            .all(|it| it.consumer.has_contents_of_all_sources())''','''            .filter(|it| !it.consumer.get_sources().is_empty())
            .all(|it| it.consumer.has_contents_of_all_sources())'''))
ref('OK7-e6-any', (F,'''        (*self.sections)
            .borrow()
            .iter()
            .all(|it| it.consumer.has_contents_of_all_sources())''','''        let sections = (*self.sections).borrow();
        let mut complete = true;
        for section in sections.iter() {
            complete = complete && section.consumer.has_contents_of_all_sources();
        }
        complete'''))
ref('E06-content', (F,'''                .source_content_for(source, Some(false))
            {
                return Some(it);
            }''','''                .source_content_for(source, Some(false))
            {
                if !it.is_empty() {
                    return Some(it);
                }
            }'''))
ref('E03-find', (F,'''            if consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
        }

        None
    }

    ///
''','''            if consumer.find_source_index(source).is_some()
                && consumer.source_map.mappings.as_deref() != Some("")
            {
                return Some(i as i32);
            }
        }

        None
    }

    ///
'''))
ref('E03-late', (F,'''                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last_generated_column {
                            *g += column_shift;
                        }
                    }

                    generated_position.generated.line += line_shift;
''','''                    generated_position.generated.line += line_shift;
                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                    }
'''))
ref('OK7-e3-last', (F,'''                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last_generated_column {
                            *g += column_shift;
                        }
''','''                        generated_position.generated.column += column_shift;
'''))
ref('E04-next', (F,'''                .get(index as usize + 1)
                .map(|it| it.generated_offset.clone());''','''                .get(index as usize + 1)
                .filter(|it| it.generated_offset.line > 1)
                .map(|it| it.generated_offset.clone());'''))
ref('E04-last', (F,'''                .get(index as usize + 1)
                .map(|it| it.generated_offset.clone());''','''                .last()
                .map(|it| it.generated_offset.clone());'''))
ref('OK7-e4-into', (F,'''                    .all_generated_position_for(source, original_line, original_column)
                    .iter()
                    .map(|mapping| {
                        let mut mapping = mapping.clone();
''','''                    .all_generated_position_for(source, original_line, original_column)
                    .into_iter()
                    .map(|mut mapping| {
'''))
ref('E05-index', (F,'''                                let next_offset = offsets.get(index + 1);''','''                                let next_offset = offsets.get(index + 1).or_else(|| offsets.first());'''))
ref('E05-only', (F,'''                    section.consumer.each_mapping(
                        {''','''                    if section.consumer.source_map.sources.is_none() {
                        return;
                    }
                    section.consumer.each_mapping(
                        {'''))
ref('E02-neg', (F,'''                        column: needle.column
                            - if it.generated_offset.line == needle.line {''','''                        column: needle.column
                            - if it.generated_offset.line >= needle.line {'''))
ref('E02-idx', (F,'''            .get_mut(section_index as usize)''','''            .get_mut(section_index.max(0) as usize)'''))
ref('E02-none', (F,'''                .map(|mut mapping| {
                    if mapping.generated.line == 1 {
                        mapping.generated.column += it''','''                .filter(|mapping| mapping.source.is_some())
                .map(|mut mapping| {
                    if mapping.generated.line == 1 {
                        mapping.generated.column += it'''))
# basic consumer
ref('D01-empty', (F,'''                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(''','''                    .iter()
                    .flatten()
                    .filter(|it| !it.is_empty())
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map('''))
ref('OK7-d7-if', (F,'''        if self.absolute_sources.has(source_as_map_relative.clone()) {
            let index = self
                .absolute_sources
                .index_of(source_as_map_relative)
                .unwrap();

            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }
''','''        if let Some(index) = self.absolute_sources.index_of(source_as_map_relative) {
            let index = index as i32;
            self.source_lookup_cache.insert(source.to_owned(), index);
            return Some(index);
        }
'''))
ref('D07-neg', (F,'''        None
    }

    pub fn get_sources(&self) -> Vec<String> {
        self.absolute_sources''','''        self.source_lookup_cache.insert(source.to_string(), -1);
        None
    }

    pub fn get_sources(&self) -> Vec<String> {
        self.absolute_sources'''))
ref('D06-len', (F,'''                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())''','''                s.iter().filter(|it| it.is_some()).count()
                    >= self.source_map.sources.as_ref().map_or(0, |it| it.len())'''))
ref('OK7-d6-loop', (F,'''                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())''','''                let wanted = self.source_map.sources.as_ref().map_or(0, |it| it.len());
                if s.len() < wanted {
                    return false;
                }
                for content in s {
                    if content.is_none() {
                        return false;
                    }
                }
                true'''))
ref('D06-last', (F,'''                    && s.iter().all(|it| it.is_some())''','''                    && s.iter().rev().skip_while(|it| it.is_none()).all(|it| it.is_some())'''))
ref('D05-rev', (F,'''        self.absolute_sources.to_vec()
''','''        let mut v = self.absolute_sources.to_vec();
        v.retain(|it| !it.is_empty());
        v
'''))
ref('OK7-d02-u', (F,'''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .original_location_for''','''        if self.mappings.is_none() || generated_column == 0 && !self.computed_column_spans {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .original_location_for'''))
# generator / lists
ref('OK7-c2-zip', (G,'''        for i in 0..mappings_len {
            let mapping = mappings[i].clone();
''','''        for (i, mapping) in mappings.iter().cloned().enumerate() {
            let _ = mappings_len;
'''))
ref('C03-col0', (G,'''                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {
                    continue;
                }''','''                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0
                    && (i < 2 || util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 2]) != 0)
                {
                    continue;
                }'''))
ref('OK7-c5-for', (G,'''        sources
            .into_iter()
            .map(|mut source| -> Option<String> {
                if let Some(ref root) = source_root {
                    source = util::relative(root.clone(), source);
                }

                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }
            })
            .collect()''','''        let mut contents = Vec::with_capacity(sources.len());
        for source in sources {
            let key = match source_root {
                Some(ref root) => util::relative(root.clone(), source),
                None => source,
            };
            contents.push(self.source_contents.get(&key).cloned());
        }
        contents'''))
ref('OK7-b03-merge', (L,'''            self.sorted = false;''','''            self.sorted = self.array.len() < 1;'''))
ref('OK7-d7-neg', (F,'''        None
    }

    pub fn get_sources(&self) -> Vec<String> {
        self.absolute_sources''','''        self.source_lookup_cache.insert(source.to_string(), -1);
        None
    }

    pub fn get_sources(&self) -> Vec<String> {
        self.absolute_sources'''), (F,'''        if let Some(&index) = cached_index {
            return Some(index);''','''        if let Some(&index) = cached_index {
            return Some(index).filter(|it| *it >= 0);'''))
