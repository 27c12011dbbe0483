F, A, G, U, M, L, B, V, SM, B64 = 'consumer.rs', 'array_set.rs', 'generator.rs', 'util.rs', 'mapping.rs', 'mapping_list.rs', 'binary_search.rs', 'base64_vlq.rs', 'source_map.rs', 'base64.rs'
# ---- behaviour kept
ref('OK9-url-match', (F,'''    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
            panic!("Unsupported version: {}", source_map.version);
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),''','''    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
            panic!("Unsupported version: {}", source_map.version);
        }

        let mut absolute_sources = ArraySet::new();
        if let Some(sources) = &source_map.sources {
            for it in sources {
                let url = match source_map_url {
                    Some(base) => util::compute_source_url(source_map.source_root.as_deref(), it, Some(base)),
                    None => util::compute_source_url(source_map.source_root.as_deref(), it, None),
                };
                absolute_sources.add(url, true);
            }
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources,'''))
ref('OK9-ctor-delegate', (F,'''        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
            panic!("Unsupported version: {}", source_map.version);
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json(''','''        Self::from_source_map_json(source_map, source_map_url)
    }

    pub fn from_source_map_json('''))
ref('OK9-find-helper', (F,'''        // Treat the source as map-relative overall by default.
        let source_as_map_relative =
            util::compute_source_url(None, source, self.source_map_url.as_deref());
        if self.absolute_sources.has(source_as_map_relative.clone()) {
            let index = self
                .absolute_sources
                .index_of(source_as_map_relative)
                .unwrap();

            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back to treating the source as sourceRoot-relative.
        let source_as_source_root_relative = util::compute_source_url(
            self.source_map.source_root.as_deref(),
            source,
            self.source_map_url.as_deref(),
        );
        if self
            .absolute_sources
            .has(source_as_source_root_relative.clone())
        {
            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None
    }''','''        let root = self.source_map.source_root.clone();
        for candidate in [None, root.as_deref()] {
            if let Some(index) = self.listed(candidate, source) {
                self.source_lookup_cache.insert(source.to_owned(), index);
                return Some(index);
            }
        }

        None
    }

    fn listed(&self, root: Option<&str>, source: &str) -> Option<i32> {
        let url = util::compute_source_url(root, source, self.source_map_url.as_deref());
        self.absolute_sources.index_of(url).map(|it| it as i32)
    }'''))
ref('OK9-find-orelse', (F,'''        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }
''','''        if self.source_lookup_cache.contains_key(source) {
            return self.source_lookup_cache.get(source).copied();
        }
'''))
ref('OK9-mappings-helper', (F,'''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .original_location_for(''','''        let mappings = self.loaded()?;

        let mapping = mappings
            .original_location_for('''), (F,'''    fn parse_mappings(&self)''','''    fn loaded(&mut self) -> Option<&mut source_map_mappings::Mappings> {
        if self.mappings.is_none() {
            if let Ok(it) = self.parse_mappings() {
                self.mappings = Some(it);
            }
        }
        self.mappings.as_mut()
    }

    fn parse_mappings(&self)'''))
ref('OK9-orig-early', (F,'''        match mapping {
            Some(mapping) => {
                if mapping.generated_line as i32 == generated_line - 1 {
                    mapping.original.clone().map(|original| Mapping {
                        name: original
                            .name
                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),
                        source: self.absolute_sources.at(original.source as i32),
                        original: Some(Position {
                            line: (original.original_line + 1) as i32,
                            column: original.original_column as i32,
                        }),
                        generated: Position {
                            line: (mapping.generated_line + 1) as i32,
                            column: mapping.generated_column as i32,
                        },
                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })
                } else {
                    None
                }
            }
            None => None,
        }''','''        let mapping = mapping?;
        if mapping.generated_line as i32 + 1 != generated_line {
            return None;
        }
        let original = mapping.original?;
        let mut name = None;
        if let (Some(index), Some(names)) = (original.name, &self.source_map.names) {
            name = names.get(index as usize).map(|it| it.to_string());
        }
        let mut last = None;
        if let Some(it) = mapping.last_generated_column {
            last = Some(it as i32);
        }
        Some(Mapping {
            source: self.absolute_sources.at(original.source as i32),
            name,
            generated: Position {
                line: generated_line,
                column: mapping.generated_column as i32,
            },
            original: Some(Position {
                line: original.original_line as i32 + 1,
                column: original.original_column as i32,
            }),
            last_generated_column: last,
        })'''))
ref('OK9-contents-loop', (F,'''                s.len() >= self.source_map.sources.as_ref().map_or(0, |it| it.len())
                    && s.iter().all(|it| it.is_some())''','''                let listed = match &self.source_map.sources {
                    Some(it) => it.len(),
                    None => 0,
                };
                if s.len() < listed {
                    return false;
                }
                for it in s {
                    if it.is_none() {
                        return false;
                    }
                }
                true'''))
ref('OK9-content-idx', (F,'''        self.source_map.sources_content.as_ref()?;

        let sources_content = self.source_map.sources_content.clone().unwrap();
        let panic_on_missing = panic_on_missing.unwrap_or(true);

        let index = self.find_source_index(source);
        return match index {
            Some(i) => sources_content.get(i as usize).cloned().flatten(),
            None => {
                if panic_on_missing {
                    panic!(r#""{}" is not in the SourceMap."#, source);
                } else {
                    None
                }
            }
        };''','''        if self.source_map.sources_content.is_none() {
            return None;
        }

        if let Some(i) = self.find_source_index(source) {
            return match self.source_map.sources_content.as_ref().unwrap().get(i as usize) {
                Some(Some(text)) => Some(text.clone()),
                _ => None,
            };
        }
        if panic_on_missing != Some(false) {
            panic!("source {} is unknown", source);
        }
        None'''))
ref('OK9-gen-last', (F,'''                    let last_column = mapping.last_generated_column;
                    let last_column = if self.computed_column_spans && last_column.is_none() {
                        Some(-1)
                    } else {
                        last_column.map(|it| it as i32)
                    };
''','''                    let last_column = match (mapping.last_generated_column, self.computed_column_spans) {
                        (Some(it), _) => Some(it as i32),
                        (None, true) => Some(-1),
                        (None, false) => None,
                    };
'''))
ref('OK9-ix-orig', (F,'''                .map(|mut mapping| {
                    if mapping.generated.line == 1 {
                        mapping.generated.column += it.generated_offset.column - 1;
                        if let Some(last) = &mut mapping.last_generated_column {
                            *last += it.generated_offset.column - 1;
                        }
                    }
                    mapping.generated.line += it.generated_offset.line - 1;
                    mapping
                })''','''                .map(|mapping| {
                    let shift = if mapping.generated.line == 1 { it.generated_offset.column - 1 } else { 0 };
                    Mapping {
                        generated: Position {
                            line: mapping.generated.line + it.generated_offset.line - 1,
                            column: mapping.generated.column + shift,
                        },
                        last_generated_column: mapping.last_generated_column.map(|last| last + shift),
                        ..mapping
                    }
                })'''))
ref('OK9-ix-gen', (F,'''                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last_generated_column {
                            *g += column_shift;
                        }
                    }

                    generated_position.generated.line += line_shift;

                    return Some(Position {
                        line: generated_position.generated.line,
                        column: generated_position.generated.column,
                    });''','''                    let Position { line, column } = generated_position.generated.clone();
                    return Some(if line == 1 {
                        Position { line: 1 + line_shift, column: column + column_shift }
                    } else {
                        Position { line: line + line_shift, column }
                    });'''))
ref('OK9-ix-sections', (F,'''        for section in (*self.sections).borrow_mut().iter_mut() {
            if let Some(it) = section
                .consumer
                .source_content_for(source, Some(false))
            {
                return Some(it);
            }
        }

        let panic_on_missing = panic_on_missing.unwrap_or(true);
        if panic_on_missing {''','''        let found = self
            .sections
            .borrow_mut()
            .iter_mut()
            .find_map(|it| it.consumer.source_content_for(source, Some(false)));
        if found.is_some() {
            return found;
        }

        if panic_on_missing.map_or(true, |it| it) {'''))
ref('OK9-ix-find', (F,'''        for (i, section) in (*self.sections).borrow_mut().iter_mut().enumerate() {
            let consumer = &mut section.consumer;
            if consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
        }

        None
    }

    ///''','''        let mut sections = self.sections.borrow_mut();
        let mut i = 0;
        while i < sections.len() {
            if sections[i].consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
            i += 1;
        }
        None
    }

    ///'''))
ref('OK9-as-set', (A,'''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();

        if !is_duplicate || allow_duplicates {
            self.array.push(data.clone());
        }
        if !is_duplicate {
            self.set.insert(data, idx);
        }''','''        match (self.set.contains_key(&data), allow_duplicates) {
            (true, true) => self.array.push(data),
            (true, false) => {}
            (false, _) => {
                self.set.insert(data.clone(), self.array.len());
                self.array.push(data);
            }
        }'''))
ref('OK9-as-entry', (A,'''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();

        if !is_duplicate || allow_duplicates {
            self.array.push(data.clone());
        }
        if !is_duplicate {
            self.set.insert(data, idx);
        }''','''        let idx = self.array.len();
        let known = self.set.contains_key(data.as_str());
        self.set.entry(data.clone()).or_insert(idx);
        if allow_duplicates || !known {
            self.array.push(data);
        }'''))
ref('OK9-at', (A,'''        if idx >= 0 && idx < self.array.len() as i32 {
            self.array.get(idx as usize).cloned()
        } else {
            None
        }''','''        if idx < 0 {
            return None;
        }
        self.array.get(idx as usize).map(|it| it.clone())'''))
ref('OK9-ml-add', (L,'''            self.last = Some(mapping.clone());
            self.array.push(mapping);
        } else {
            self.sorted = false;
            self.array.push(mapping)
        }''','''            self.last.replace(mapping.clone());
        } else {
            self.sorted = false;
        }
        self.array.push(mapping);'''))
ref('OK9-ml-cmp', (L,'''                let cmp = util::compare_by_generated_pos_inflated(a, b);
                match cmp {
                    d if d > 0 => std::cmp::Ordering::Greater,
                    d if d == 0 => std::cmp::Ordering::Equal,
                    _ => std::cmp::Ordering::Less,
                }''','''                util::compare_by_generated_pos_inflated(a, b).cmp(&0)'''))
ref('OK9-ml-early', (L,'''        if !self.sorted {
            self.array.sort_by(''','''        let Self { array, sorted, .. } = self;
        if !*sorted {
            array.sort_by('''), (L,'''            self.sorted = true;
        }

        self.array.clone()''','''            *sorted = true;
        }

        array.to_vec()'''))
ref('OK9-bs-loop', (B,'''    while index > 0 {
        if compare2(&hay_stack[index as usize], &hay_stack[(index - 1) as usize]) != 0 {
            break;
        }
        index -= 1;
    }

    index''','''    loop {
        if index == 0 || compare2(&hay_stack[index as usize], &hay_stack[index as usize - 1]) != 0 {
            return index;
        }
        index -= 1;
    }'''))
ref('OK9-gen-iter', (G,'''        let mappings_len = mappings.len();
        for i in 0..mappings_len {
            let mapping = mappings[i].clone();''','''        for (i, mapping) in mappings.iter().enumerate() {
            let mapping = mapping.clone();'''))
ref('OK9-gen-prev', (G,'''        let mappings_len = mappings.len();
        for i in 0..mappings_len {
            let mapping = mappings[i].clone();''','''        let mut before: Option<&Mapping> = None;
        for current in &mappings {
            let mapping = current.clone();'''), (G,'''            } else if i > 0 {
                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {
                    continue;
                }
                next += ",";
            }
''','''            } else if let Some(it) = before {
                if util::compare_by_generated_pos_inflated(&mapping, it) == 0 {
                    before = Some(current);
                    continue;
                }
                next += ",";
            }
            before = Some(current);
'''))
ref('OK9-gen-field', (G,'''                next += &base64vlq_encode(source_idx - previous_source);
                previous_source = source_idx;
''','''                let delta = |new: i32, old: &mut i32| {
                    let difference = new - *old;
                    *old = new;
                    base64vlq_encode(difference)
                };
                next += &delta(source_idx, &mut previous_source);
'''))
ref('OK9-gen-content', (G,'''                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }''','''                self.source_contents.get(source.as_str()).map(|it| it.to_owned())'''))
ref('OK9-gen-setc', (G,'''        if let Some(content) = source_content {
            self.source_contents.insert(source, content);
        } else {
            self.source_contents.remove(&source);
        }''','''        match source_content {
            None => self.source_contents.retain(|key, _| *key != source),
            Some(content) => {
                *self.source_contents.entry(source).or_default() = content;
            }
        }'''))
ref('OK9-gen-valid', (G,'''        if (mapping.generated.column >= 0
            && mapping.generated.line > 0
            && mapping.original.is_none()
            && mapping.source.is_none()
            && mapping.name.is_none()) // case 1
            || (mapping.original.is_some()
                && mapping.generated.line > 0
                && mapping.generated.column >= 0
                && mapping.original.as_ref().unwrap().line > 0
                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())
        // case 2, 3
        {
            // case 1 2 3
            Ok(())
        } else {
            Err(())
        }''','''        if mapping.generated.line < 1 || mapping.generated.column < 0 {
            return Err(());
        }
        match (&mapping.original, &mapping.source, &mapping.name) {
            (None, None, None) => Ok(()),
            (Some(Position { line, column }), Some(_), _) if *line >= 1 && *column >= 0 => Ok(()),
            _ => Err(()),
        }'''), (G,'use crate::source_map::SourceMapJson;','use crate::source_map::{Position, SourceMapJson};'), (G,'''    use crate::mapping_list::MappingList;
    use crate::source_map::Position;
''','''    use crate::mapping_list::MappingList;
'''))
ref('OK9-gen-json', (G,'''        let mut sources_content: Option<Vec<Option<String>>> = None;
        if !self.source_contents.is_empty() {
            sources_content = Some(
                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
            );
        }''','''        let sources_content = if self.source_contents.len() == 0 {
            None
        } else {
            Some(self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()))
        };'''))
ref('OK9-u-strcmp', (U,'''    if a == b {
        return 0;
    }

    if a.is_none() {
        return 1;
    }

    if b.is_none() {
        return -1;
    }

    if a.unwrap() > b.unwrap() {
        return 1;
    }

    -1''','''    match (a, b) {
        (None, None) => 0,
        (None, Some(_)) => 1,
        (Some(_), None) => -1,
        (Some(a), Some(b)) => a.cmp(&b) as i32,
    }'''))
ref('OK9-u-inflated', (U,'''    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = a.generated.column.cmp(&b.generated.column) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = strcmp''','''    let mut cmp = (a.generated.line, a.generated.column).cmp(&(b.generated.line, b.generated.column)) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = strcmp'''))
ref('OK9-u-type', (U,'''    let mut iter = input.chars();
    let first = iter.next();
    let second = iter.next();
    if first == Some('/') {
        if second == Some('/') {
            return SchemeRelative;
        }
        return PathAbsolute;
    }
    if ABSOLUTE''','''    if input.starts_with("//") {
        return SchemeRelative;
    }
    if input.starts_with('/') {
        return PathAbsolute;
    }
    if ABSOLUTE'''))
ref('OK9-u-unique', (U,'''    let mut id = 0;
    loop {
        let ident = format!("{}{}", prefix, id);
        id += 1;
        if !input.contains(ident.as_str()) {
            return ident;
        }
    }''','''    (0..)
        .map(|id| format!("{}{}", prefix, id))
        .find(|it| !input.contains(it.as_str()))
        .unwrap()'''))
ref('OK9-u-base', (U,'''    for _ in 0..max_dot_parts {
        base.push_str(&segment);
        base.push('/');
    }

    base''','''    let part = segment + "/";
    base + &part.repeat(max_dot_parts)'''), (U,'    let mut base = format!("{}/", *PROTOCOL_AND_HOST);','    let base = format!("{}/", *PROTOCOL_AND_HOST);'))
ref('OK9-u-parts', (U,'''    let mut target_parts = target_url.path().split('/').collect::<LinkedList<_>>();
    let mut root_parts = root_url.path().split('/').collect::<LinkedList<_>>();

    if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {
        root_parts.pop_back();
    }

    while !target_parts.is_empty()
        && !root_parts.is_empty()
        && target_parts.front().unwrap() == root_parts.front().unwrap()
    {
        target_parts.pop_front();
        root_parts.pop_front();
    }

    let mut relative_path: String = root_parts
        .iter()
        .map(|_| "..")
        .chain(target_parts)
        .collect::<Vec<_>>()
        .join("/");''','''    let target_parts = target_url.path().split('/').collect::<Vec<_>>();
    let mut root_parts = root_url.path().split('/').collect::<Vec<_>>();
    if root_parts.last() == Some(&"") {
        root_parts.pop();
    }

    let mut common = 0;
    while common < target_parts.len() && common < root_parts.len() && target_parts[common] == root_parts[common] {
        common += 1;
    }

    let mut parts = vec![".."; root_parts.len() - common];
    parts.extend_from_slice(&target_parts[common..]);
    let mut relative_path = parts.join("/");'''), (U,'use std::collections::LinkedList;\n',''))
ref('OK9-u-origin', (U,'''    if target_url.scheme() != root_url.scheme()
        || target_url.username() != root_url.username()
        || target_url.password() != root_url.password()
        || target_url.host() != root_url.host()
        || target_url.port() != root_url.port()
    {
        return None;
    }

    Some(''','''    let place = |it: &Url| {
        (
            it.scheme().to_string(),
            it.username().to_string(),
            it.password().map(|it| it.to_string()),
            it.host().map(|it| it.to_owned()),
            it.port(),
        )
    };
    if place(&target_url) != place(&root_url) {
        return None;
    }

    Some('''))
ref('OK9-u-csu', (U,'''    let mut url = NORMALIZE(source_url.to_string());

    if let Some(source_root) = source_root {
        url = join(source_root, url.as_str());
    }

    if let Some(source_map_url) = source_map_url {
        url = join(
            TRIM_FILENAME(source_map_url.to_string()).as_str(),
            url.as_str(),
        );
    }

    url''','''    let url = NORMALIZE(source_url.to_owned());
    let url = source_root.map_or(url.clone(), |root| join(root, &url));
    match source_map_url {
        None => url,
        Some(it) => join(&TRIM_FILENAME(it.to_owned()), &url),
    }'''))
ref('OK9-u-join', (U,'''    let root = ENSURE_DIRECTORY(root.to_owned());

    if path_t == Absolute {
        return with_base(path, None);
    }

    if root_t == Absolute {
        return with_base(path, Some(root.as_str()));
    }

    if path_t == SchemeRelative {
        return NORMALIZE(path.to_string());
    }

    if root_t == SchemeRelative {
        return join_on_host(root.as_str(), path, PROTOCOL);
    }

    if path_t == PathAbsolute {
        return NORMALIZE(path.to_string());
    }

    if root_t == PathAbsolute {
        return join_on_host(root.as_str(), path, PROTOCOL_AND_HOST.as_str());
    }
''','''    let root = ENSURE_DIRECTORY(root.to_owned());

    match (&root_t, &path_t) {
        (_, Absolute) => return with_base(path, None),
        (Absolute, _) => return with_base(path, Some(&root)),
        (_, SchemeRelative) => return NORMALIZE(path.to_string()),
        (SchemeRelative, _) => return join_on_host(&root, path, PROTOCOL),
        (_, PathAbsolute) => return NORMALIZE(path.to_string()),
        (PathAbsolute, _) => return join_on_host(&root, path, &PROTOCOL_AND_HOST),
        _ => {}
    }
'''))
ref('OK9-vlq', (V,'''        digit = vlq & VLQ_BASE_MASK as i32;''','''        digit = vlq % VLQ_BASE as i32;''')) if False else None
