ref('OK-bc-new-shared', ('consumer.rs', '''        let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
            panic!("Unsupported version: {}", source_map.version);
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json(''', '''        let source_map: SourceMapJson = serde_json::from_str(source_map_raw).unwrap();
        Self::from_source_map_json(source_map, source_map_url)
    }

    pub fn from_source_map_json('''))
ref('OK-bc-new-loop', ('consumer.rs', '''        let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
            panic!("Unsupported version: {}", source_map.version);
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),''', '''        let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
        assert_eq!(source_map.version, SUPPORTED_SOURCE_MAP_VERSION, "Unsupported version");
        let mut absolute_sources = ArraySet::new();
        if let Some(sources) = &source_map.sources {
            for source in sources {
                let url = util::compute_source_url(source_map.source_root.as_deref(), source, source_map_url);
                absolute_sources.add(url, true);
            }
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: HashMap::new(),
            source_map_url: source_map_url.map(String::from),
            absolute_sources,'''))
ref('OK-bc-find', ('consumer.rs', '''        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }

        // Treat the source as map-relative overall by default.
        let source_as_map_relative =
            util::compute_source_url(None, source, self.source_map_url.as_deref());
        if self.absolute_sources.has(source_as_map_relative.clone()) {
            let index = self
                .absolute_sources
                .index_of(source_as_map_relative)
                .unwrap();

            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back to treating the source as sourceRoot-relative.
        let source_as_source_root_relative = util::compute_source_url(
            self.source_map.source_root.as_deref(),
            source,
            self.source_map_url.as_deref(),
        );
        if self
            .absolute_sources
            .has(source_as_source_root_relative.clone())
        {
            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None''', '''        if let Some(index) = self.source_lookup_cache.get(source) {
            return Some(*index);
        }

        let map_url = self.source_map_url.as_deref();
        let map_relative = util::compute_source_url(None, source, map_url);
        let root_relative = util::compute_source_url(self.source_map.source_root.as_deref(), source, map_url);
        let index = self
            .absolute_sources
            .index_of(map_relative)
            .or_else(|| self.absolute_sources.index_of(root_relative))? as i32;
        self.source_lookup_cache.insert(source.to_owned(), index);
        Some(index)'''))
ref('OK-bc-find-nocache', ('consumer.rs', '''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back''', '''            return Some(index as i32);
        }

        // Fall back'''))
ref('OK-bc-find-iter', ('consumer.rs', '''        // Treat the source as map-relative overall by default.
        let source_as_map_relative =
            util::compute_source_url(None, source, self.source_map_url.as_deref());
        if self.absolute_sources.has(source_as_map_relative.clone()) {
            let index = self
                .absolute_sources
                .index_of(source_as_map_relative)
                .unwrap();

            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back to treating the source as sourceRoot-relative.
        let source_as_source_root_relative = util::compute_source_url(
            self.source_map.source_root.as_deref(),
            source,
            self.source_map_url.as_deref(),
        );
        if self
            .absolute_sources
            .has(source_as_source_root_relative.clone())
        {
            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None''', '''        for root in [None, self.source_map.source_root.clone()] {
            let url = util::compute_source_url(root.as_deref(), source, self.source_map_url.as_deref());
            if let Some(index) = self.absolute_sources.index_of(url) {
                self.source_lookup_cache.insert(source.to_string(), index as i32);
                return Some(index as i32);
            }
        }

        None'''))
ref('OK-bc-ensure', ('consumer.rs', '''        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .original_location_for(''', '''        let bias = bias.unwrap_or_default();
        self.ensure_parsed();
        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .original_location_for('''), ('consumer.rs', '''    fn parse_mappings(&self)''', '''    fn ensure_parsed(&mut self) {
        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }
    }

    fn parse_mappings(&self)'''))
ref('OK-bc-orig-q', ('consumer.rs', '''        match mapping {
            Some(mapping) => {
                if mapping.generated_line as i32 == generated_line - 1 {
                    mapping.original.clone().map(|original| Mapping {
                        name: original
                            .name
                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),
                        source: self.absolute_sources.at(original.source as i32),
                        original: Some(Position {
                            line: (original.original_line + 1) as i32,
                            column: original.original_column as i32,
                        }),
                        generated: Position {
                            line: (mapping.generated_line + 1) as i32,
                            column: mapping.generated_column as i32,
                        },
                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })
                } else {
                    None
                }
            }
            None => None,
        }''', '''        let mapping = mapping.filter(|it| it.generated_line as i32 + 1 == generated_line)?;
        let original = mapping.original.as_ref()?;
        let name = match original.name {
            Some(index) => self.name_at(index as usize),
            None => None,
        };
        Some(Mapping {
            name,
            source: self.absolute_sources.at(original.source as i32),
            original: Some(Position { line: original.original_line as i32 + 1, column: original.original_column as i32 }),
            generated: Position { line: mapping.generated_line as i32 + 1, column: mapping.generated_column as i32 },
            last_generated_column: mapping.last_generated_column.map(|it| it as i32),
        })'''), ('consumer.rs', '''    fn parse_mappings(&self)''', '''    fn name_at(&self, index: usize) -> Option<String> {
        let names = self.source_map.names.as_ref()?;
        if index < names.len() { Some(names[index].clone()) } else { None }
    }

    fn parse_mappings(&self)'''))
ref('OK-bc-gen', ('consumer.rs', '''        let source = match self.find_source_index(source) {
            Some(s) => s,
            None => return None,
        };

        if original_line < 1 {
            panic!("Line numbers must be >= 1")
        }

        if original_column < 0 {
            panic!("Column numbers must be >= 0")
        }
''', '''        let source = self.find_source_index(source)?;
        assert!(original_line >= 1, "Line numbers must be >= 1");
        assert!(original_column >= 0, "Column numbers must be >= 0");
'''))
ref('OK-bc-gen-span', ('consumer.rs', '''                    let last_column = mapping.last_generated_column;
                    let last_column = if self.computed_column_spans && last_column.is_none() {
                        Some(-1)
                    } else {
                        last_column.map(|it| it as i32)
                    };
''', '''                    let last_column = match mapping.last_generated_column {
                        Some(it) => Some(it as i32),
                        None if self.computed_column_spans => Some(-1),
                        None => None,
                    };
'''))
ref('OK-bc-all', ('consumer.rs', '''        let source = self.find_source_index(source);
        if source.is_none() {
            return vec![];
        }

        let source = source.unwrap();

        if source < 0 {
            return vec![];
        }
''', '''        let source = match self.find_source_index(source) {
            Some(source) if source >= 0 => source,
            _ => return Vec::new(),
        };
'''))
ref('OK-bc-all-loop', ('consumer.rs', '''        mappings
            .all_generated_locations_for(
                source as u32,
                (original_line - 1) as u32,
                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()''', '''        let column = match original_column {
            Some(column) => Some(column as u32),
            None => None,
        };
        let mut found = vec![];
        for mapping in mappings.all_generated_locations_for(source as u32, original_line as u32 - 1, column) {
            found.push(mapping.clone());
        }
        found'''))
ref('OK-bc-each', ('consumer.rs', '''            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),
            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),''', '''            IterOrd::GeneratedOrd => {
                for mapping in mappings.by_generated_location() {
                    f(mapping);
                }
            }
            IterOrd::OriginalOrd => {
                for mapping in mappings.by_original_location() {
                    f(mapping)
                }
            }'''))
ref('OK-bc-content', ('consumer.rs', '''        self.source_map.sources_content.as_ref()?;

        let sources_content = self.source_map.sources_content.clone().unwrap();
        let panic_on_missing = panic_on_missing.unwrap_or(true);

        let index = self.find_source_index(source);
        return match index {
            Some(i) => sources_content.get(i as usize).cloned().flatten(),
            None => {
                if panic_on_missing {
                    panic!(r#""{}" is not in the SourceMap."#, source);
                } else {
                    None
                }
            }
        };''', '''        if self.source_map.sources_content.is_none() {
            return None;
        }

        match self.find_source_index(source) {
            Some(i) => self.source_map.sources_content.as_ref()?.get(i as usize)?.clone(),
            None if panic_on_missing == Some(false) => None,
            None => panic!(r#""{}" is not in the SourceMap."#, source),
        }'''))
ref('OK-bc-has', ('consumer.rs', '''        match self.source_map.sources_content {
            Some(ref s) => {
                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())
            }
            None => false,
        }''', '''        let contents = match &self.source_map.sources_content {
            Some(contents) => contents,
            None => return false,
        };
        let wanted = self.source_map.sources.as_ref().map_or(0, Vec::len);
        if contents.len() < wanted {
            return false;
        }
        for content in contents {
            if content.is_none() {
                return false;
            }
        }
        true'''))
ref('OK-bc-spans', ('consumer.rs', '''        if self.computed_column_spans {
            return;
        }

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();
        self.computed_column_spans = true;''', '''        if !self.computed_column_spans {
            if self.mappings.is_none() {
                self.mappings = self.parse_mappings().ok();
            }
            if let Some(mappings) = &mut self.mappings {
                self.computed_column_spans = true;
                mappings.compute_column_spans();
            }
        }'''))
ref('OK-ix-load-for', ('consumer.rs', '''                    .sections
                    .unwrap()
                    .iter()
                    .map({
                        let last_offset = last_offset;
                        move |section| {''', '''                    .sections
                    .unwrap()
                    .iter()
                    .map({
                        move |section| {'''))
ref('OK-ix-sources', ('consumer.rs', '''        let mut sources: Vec<String> = vec![];

        for i in 0..(*self.sections).borrow().len() {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
        }

        sources''', '''        self.sections.borrow().iter().flat_map(|it| it.consumer.get_sources()).collect()'''))
ref('OK-ix-sources2', ('consumer.rs', '''        for i in 0..(*self.sections).borrow().len() {
            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
        }
''', '''        for section in self.sections.borrow().iter() {
            for source in section.consumer.get_sources() {
                sources.push(source);
            }
        }
'''))
ref('OK-ix-orig-if', ('consumer.rs', '''                if a.line - b.generated_offset.line != 0 {
                    a.line - b.generated_offset.line
                } else {''', '''                let lines = a.line - b.generated_offset.line;
                if lines != 0 {
                    lines
                } else {'''))
ref('OK-ix-orig-get', ('consumer.rs', '''        (&*self.sections)
            .borrow_mut()
            .get_mut(section_index as usize)
            .map(|it| {
                it.consumer.original_position_for(''', '''        if section_index < 0 {
            return None;
        }
        self.sections
            .borrow_mut()
            .get_mut(section_index as usize)
            .map(|it| {
                it.consumer.original_position_for('''))
ref('OK-ix-has', ('consumer.rs', '''        (*self.sections)
            .borrow()
            .iter()
            .all(|it| it.consumer.has_contents_of_all_sources())''', '''        let sections = self.sections.borrow();
        for section in sections.iter() {
            if !section.consumer.has_contents_of_all_sources() {
                return false;
            }
        }
        true'''))
ref('OK-ix-has-any', ('consumer.rs', '''        (*self.sections)
            .borrow()
            .iter()
            .all(|it| it.consumer.has_contents_of_all_sources())''', '''        !self.sections.borrow().iter().any(|it| !it.consumer.has_contents_of_all_sources())'''))
ref('OK-ix-content', ('consumer.rs', '''        for section in (*self.sections).borrow_mut().iter_mut() {
            if let Some(it) = section
                .consumer
                .source_content_for(source, Some(false))
            {
                return Some(it);
            }
        }
''', '''        let found = self
            .sections
            .borrow_mut()
            .iter_mut()
            .find_map(|it| it.consumer.source_content_for(source, Some(false)));
        if found.is_some() {
            return found;
        }
'''))
ref('OK-ix-find', ('consumer.rs', '''        for (i, section) in (*self.sections).borrow_mut().iter_mut().enumerate() {
            let consumer = &mut section.consumer;
            if consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
        }

        None''', '''        self.sections
            .borrow_mut()
            .iter_mut()
            .position(|it| it.consumer.find_source_index(source).is_some())
            .map(|it| it as i32)'''))
ref('OK-ix-gen', ('consumer.rs', '''                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last_generated_column {
                            *g += column_shift;
                        }
                    }

                    generated_position.generated.line += line_shift;

                    return Some(Position {
                        line: generated_position.generated.line,
                        column: generated_position.generated.column,
                    });''', '''                    let on_first_line = generated_position.generated.line <= 1;
                    return Some(Position {
                        line: generated_position.generated.line + line_shift,
                        column: generated_position.generated.column + if on_first_line { column_shift } else { 0 },
                    });'''))
ref('OK-ix-gen2', ('consumer.rs', '''                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last_generated_column {
                            *g += column_shift;
                        }
                    }

                    generated_position.generated.line += line_shift;

                    return Some(Position {
                        line: generated_position.generated.line,
                        column: generated_position.generated.column,
                    });''', '''                    let Position { line, column } = generated_position.generated.clone();
                    return Some(Position {
                        line: line + line_shift,
                        column: if line == 1 { column + column_shift } else { column },
                    });'''))
ref('OK-ix-all-for', ('consumer.rs', '''                section
                    .consumer
                    .all_generated_position_for(source, original_line, original_column)
                    .iter()
                    .map(|mapping| {
                        let mut mapping = mapping.clone();

                        if mapping.generated_line == 0 {''', '''                section
                    .consumer
                    .all_generated_position_for(source, original_line, original_column)
                    .into_iter()
                    .map(|mut mapping| {
                        if mapping.generated_line < 1 {'''))
ref('OK-ix-spans', ('consumer.rs', '''        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }''', '''        self.sections
            .borrow_mut()
            .iter_mut()
            .for_each(|section| section.consumer.compute_column_spans());'''))
ref('OK-ix-each-for', ('consumer.rs', '''            .iter_mut()
            .enumerate()
            .for_each({
                let offsets = &offsets;
                let f = &f;

                move |(index, section)| {''', '''            .iter_mut()
            .enumerate()
            .for_each({
                let f = &f;
                let offsets = offsets.as_slice();

                move |(index, section)| {'''))
ref('OK-ix-each-shift', ('consumer.rs', '''                                if let Some(next_offset) = next_offset {
                                    if computed_column_spans
                                        && mapping.last_generated_column.is_none()
                                        && mapping.generated_line == (next_offset.line - 1) as u32
                                    {
                                        mapping
                                            .last_generated_column
                                            .replace((next_offset.column - 1) as u32);
                                    }
                                }''', '''                                if computed_column_spans && mapping.last_generated_column.is_none() {
                                    mapping.last_generated_column = offsets
                                        .get(index + 1)
                                        .filter(|it| mapping.generated_line + 1 == it.line as u32)
                                        .map(|it| it.column as u32 - 1);
                                }'''), ('consumer.rs', '''                                let next_offset = offsets.get(index + 1);

''', ''))
ref('OK-ix-orig-le', ('consumer.rs', '''                    if mapping.generated.line == 1 {
                        mapping.generated.column''', '''                    if mapping.generated.line <= 1 {
                        mapping.generated.column'''))
ref('OK-ix-each-lt', ('consumer.rs', '''                                if mapping.generated_line == 0 {''', '''                                if mapping.generated_line < 1 {'''))
F='binary_search.rs'
import re
src=open('/repo/src/binary_search.rs').read()
a=src.index('    let mid: i32 = (high - low) / 2 + low;'); b=src.index('pub fn search')
body=src[a:b]
ref('OK-b4-loop', (F,body,'''    let mut low = low;
    let mut high = high;
    while high - low > 1 {
        let mid = low + (high - low) / 2;
        let c = compare(needle, &hay_stack[mid as usize]);
        if c == 0 {
            return mid;
        }
        if c > 0 {
            low = mid;
        } else {
            high = mid;
        }
    }
    if bias == LEAST_UPPER_BOUND {
        if high < hay_stack.len() as i32 { high } else { -1 }
    } else {
        low
    }
}

'''))
ref('OK-b4-match', (F,'''    #[allow(clippy::comparison_chain)]
    if cmp == 0 {
        // Found the element we are looking for.
        return mid;
    } else if cmp > 0 {''','''    if cmp == 0 {
        return mid;
    }
    if 0 < cmp {'''), (F,'let mid: i32 = (high - low) / 2 + low;','let mid: i32 = low + ((high - low) >> 1);'), (F,'''    while index > 0 {
        if compare2(&hay_stack[index as usize], &hay_stack[(index - 1) as usize]) != 0 {
            break;
        }
        index -= 1;
    }
''','''    while index > 0
        && compare2(&hay_stack[index as usize - 1], &hay_stack[index as usize]) == 0
    {
        index -= 1;
    }
'''))
ref('OK-b4-max', (F,'''    if low < 0 {
        -1
    } else {
        low
    }''','''    low.max(-1)'''))
