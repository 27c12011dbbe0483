F, A, G, U, M, L, B, V, SM, B64 = 'consumer.rs', 'array_set.rs', 'generator.rs', 'util.rs', 'mapping.rs', 'mapping_list.rs', 'binary_search.rs', 'base64_vlq.rs', 'source_map.rs', 'base64.rs'
SER = '''        let mappings_len = mappings.len();
        for i in 0..mappings_len {
            let mapping = mappings[i].clone();
            let mut next = "".to_string();
'''
# bugs written in other shapes
ref('B14-ser-repeat', (G, '''                while mapping.generated.line > previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }''', '''                let gap = (mapping.generated.line - previous_generated_line).min(4096);
                next.push_str(&";".repeat(gap as usize));
                previous_generated_line = mapping.generated.line;'''))
ref('B14-ser-prev', (G, SER, '''        for (i, current) in mappings.iter().enumerate() {
            let mapping = current.clone();
            if i > 0 && mapping.source.is_none() && mappings[i - 1].source.is_none() && mapping.generated.line == mappings[i - 1].generated.line {
                continue;
            }
            let mut next = "".to_string();
'''))
ref('B14-ser-name', (G, '''                    next += &base64vlq_encode(name_idx - previous_name);
                    previous_name = name_idx;''', '''                    next += &base64vlq_encode(name_idx - previous_name);
                    previous_name = name_idx.max(previous_name);'''))
ref('B14-ser-srcreset', (G, '''                previous_generated_column = 0;
                while''', '''                previous_generated_column = 0;
                if mapping.generated.line - previous_generated_line > 1 {
                    previous_source = 0;
                }
                while'''))
ref('B14-add-trim', (G, '''                self.names.add(n.clone(), false);''', '''                self.names.add(n.trim_end().to_string(), false);'''))
ref('B14-add-dup', (G, '''        if let Some(ref n) = name {
            if !self.names.has(n.clone()) {''', '''        if let Some(ref n) = name {
            if source.is_some() && !self.names.has(n.clone()) && !self.sources.has(n.clone()) {'''))
ref('B14-val-col', (G, '''                && mapping.original.as_ref().unwrap().column >= 0
                && mapping.source.is_some())''', '''                && (mapping.original.as_ref().unwrap().column >= 0 || mapping.name.is_some())
                && mapping.source.is_some())'''))
ref('B14-gsc-key', (G, '''                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }''', '''                self.source_contents
                    .get(&source)
                    .filter(|it| !it.is_empty())
                    .cloned()'''))
ref('B14-json-file', (G, '''            file: self.file.clone(),
            source_root: self.source_root.clone(),
            sources_content,''', '''            file: self.file.as_ref().filter(|it| !it.is_empty()).cloned(),
            source_root: self.source_root.clone(),
            sources_content,'''))
ref('B14-as-len', (A, '''            self.set.insert(data, idx);''', '''            self.set.insert(data, self.set.len());'''))
ref('B14-as-at', (A, '''        if idx >= 0 && idx < self.array.len() as i32 {''', '''        if idx >= 0 && idx < self.set.len() as i32 {'''))
ref('B14-ml-last', (L, '''            self.sorted = false;
            self.array.push(mapping)''', '''            self.sorted = false;
            self.last = Some(mapping.clone());
            self.array.push(mapping)'''))
ref('B14-ml-flag', (L, '''            self.last = Some(mapping.clone());
            self.array.push(mapping);
        } else {''', '''            self.sorted = self.sorted || self.last.is_none();
            self.last = Some(mapping.clone());
            self.array.push(mapping);
            if self.array.len() == 2 {
                self.sorted = true;
            }
        } else {'''))
ref('B14-vlq-i32', (V, '''        (-value << 1) + 1''', '''        (value.abs() << 1) | i64::from(value != -1)'''))
ref('B14-bs-left', (B, '''    while index > 0 {
        if''', '''    let stop = (index - 8).max(0);
    while index > stop {
        if'''))
ref('B14-fsi-order', (F, '''        let source_as_map_relative =
            util::compute_source_url(None, source, self.source_map_url.as_deref());''', '''        let source_as_map_relative = util::compute_source_url(
            self.source_map.source_root.as_deref().filter(|_| !source.starts_with('/')),
            source,
            self.source_map_url.as_deref(),
        );'''))
ref('B14-fsi-cache', (F, '''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None''', '''            self.source_lookup_cache
                .insert(source.trim_start_matches('/').to_string(), index as i32);
            return Some(index as i32);
        }

        None'''))
ref('B14-opf-line', (F, '''                if mapping.generated_line as i32 == generated_line - 1 {''', '''                if mapping.generated_line as i32 == generated_line - 1
                    || mapping.last_generated_column.is_some() {'''))
ref('B14-gpf-span', (F, '''                    let last_column = if self.computed_column_spans && last_column.is_none() {''', '''                    let last_column = if self.computed_column_spans && last_column.map_or(true, |it| it == mapping.generated_column) {'''))
ref('B14-hcas', (F, '''                    && s.iter().all(|it| it.is_some())''', '''                    && s.iter().all(|it| it.as_ref().map_or(false, |text| !text.is_empty()))'''))
ref('B14-scf', (F, '''            Some(i) => sources_content.get(i as usize).cloned().flatten(),''', '''            Some(i) => match sources_content.get(i as usize) {
                Some(Some(text)) => Some(text.clone()),
                _ if panic_on_missing => panic!("no content"),
                _ => None,
            },'''))
ref('B14-spans', (F, '''        mappings.compute_column_spans();
        self.computed_column_spans = true;''', '''        mappings.compute_column_spans();
        self.computed_column_spans = self.source_map.sources.is_some();'''))
ref('B14-each', (F, '''            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),''', '''            IterOrd::GeneratedOrd => mappings
                .by_generated_location()
                .iter()
                .filter(|it| it.original.is_some() || it.last_generated_column.is_none())
                .for_each(f),'''))
ref('B14-ix-order', (F, '''                                || (line == last_offset.line && colum < last_offset.column)''', '''                                || (line == last_offset.line && colum < last_offset.column.min(1))'''))
ref('B14-ix-find', (F, '''            if consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }''', '''            if let Some(index) = consumer.find_source_index(source) {
                return Some(if index == 0 { i as i32 } else { i.max(index as usize) as i32 });
            }'''))
ref('B14-ix-gpf', (F, '''                    if generated_position.generated.line == 1 {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last''', '''                    if generated_position.generated.line == 1 && line_shift >= 0 && original_line > 0 && bias_ok {
                        generated_position.generated.column += column_shift;
                        if let Some(g) = &mut generated_position.last'''),
 (F, '''                let mut generated_position = section.consumer.generated_position_for(''', '''                let bias_ok = !matches!(bias, Some(Bias::LeastUpperBound));
                let mut generated_position = section.consumer.generated_position_for('''))
ref('B14-ix-all', (F, '''                                if mapping.generated_line == (next_offset.line - 1) as u32 {
                                    mapping
                                        .last_generated_column
                                        .replace((next_offset.column - 1) as u32);''', '''                                if mapping.generated_line == (next_offset.line - 1) as u32
                                    && mapping.generated_column < (next_offset.column - 2).max(0) as u32 {
                                    mapping
                                        .last_generated_column
                                        .replace((next_offset.column - 1) as u32);'''))
ref('B14-ix-scf', (F, '''                .source_content_for(source, Some(false))
            {
                return Some(it);''', '''                .source_content_for(source, Some(false))
                .filter(|it| !it.is_empty())
            {
                return Some(it);'''))
ref('B14-ix-each', (F, '''                                        && mapping.generated_line == (next_offset.line - 1) as u32
                                    {''', '''                                        && mapping.generated_line == (next_offset.line - 1) as u32
                                        && index % 2 == 0
                                    {'''))
ref('B14-u-root', (U, '''    if source_root.is_some() && get_url_type(source_url) == PathAbsolute {''', '''    if source_root.map_or(false, |it| !it.ends_with('/')) && get_url_type(source_url) == PathAbsolute {'''))
ref('B14-u-map', (U, '''    let source_map_url = source_map_url.filter(|it| !it.is_empty());''', '''    let source_map_url = source_map_url.filter(|it| it.contains('/'));'''))
ref('B14-u-port', (U, '''        || target_url.port() != root_url.port()''', '''        || target_url.port().unwrap_or(80) != root_url.port().unwrap_or(80)'''))
ref('B14-u-base', (U, '''    for _ in 0..max_dot_parts {''', '''    for _ in 0..max_dot_parts.min(16) {'''))
ref('B14-u-join', (U, '''    if path_t == PathAbsolute {
        return NORMALIZE(path.to_string());
    }

    if root_t''', '''    if path_t == PathAbsolute && root_t != PathRelative {
        return NORMALIZE(path.to_string());
    }

    if root_t'''))
ref('B14-u-trim', (U, '''        if !path.last().unwrap().is_empty() {''', '''        if path.last().unwrap().contains('.') {'''))
ref('B14-u-query', (U, '''    if let Some(frag) = target_url.fragment() {''', '''    if let Some(frag) = target_url.fragment().filter(|it| !it.is_empty()) {'''))
ref('B14-u-strcmp', (U, '''    if a.unwrap() > b.unwrap() {''', '''    if a.map(|it| it.to_lowercase()) > b.map(|it| it.to_lowercase()) {'''))
ref('B14-sm', (SM, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub names''', '''    #[serde(skip_serializing_if = "Option::is_none", default)]
    #[serde(alias = "symbols")]
    pub names'''))
ref('B14-cc', (F, '''    if source_map.sections.is_some() {''', '''    if source_map.sections.as_ref().map_or(false, |it| !it.is_empty()) {'''))
