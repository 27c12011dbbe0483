F='consumer.rs'; A='array_set.rs'; G='generator.rs'; U='util.rs'; M='mapping.rs'; L='mapping_list.rs'; B='binary_search.rs'; V='base64_vlq.rs'; SM='source_map.rs'; B64='base64.rs'
# A01
ref('A01-i32mag', (V,'''    let value = i64::from(value);
    if value < 0 {
        (-value << 1) + 1
    } else {
        value << 1
    }''','''    if value < 0 {
        (i64::from(value.wrapping_neg()) << 1) + 1
    } else {
        i64::from(value) << 1
    }'''))
ref('A01-mask', (V,'''        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;
''','''        vlq = i64::from((vlq as u32) >> VLQ_BASE_SHIFT);
'''))
ref('A01-six', (V,'''        if vlq <= 0 {
            break;
        }''','''        if vlq <= 0 || encoded.len() >= 6 {
            break;
        }'''))
ref('OK6-gt1', (V,'''        if vlq > 0 {
            // There''','''        if vlq > 0 && encoded.len() < 6 {
            // There'''))
ref('A02-abs', (B64,'''    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(INT_TO_CHAR_MAP[num as usize].parse().unwrap())''','''    let num = num.wrapping_abs();
    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(INT_TO_CHAR_MAP[num as usize].parse().unwrap())'''))
ref('A02-u8', (B64,'''    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(INT_TO_CHAR_MAP[num as usize].parse().unwrap())''','''    if 0 <= num && ((num & 0xff) as usize) < INT_TO_CHAR_MAP.len() {
        Some(INT_TO_CHAR_MAP[(num & 0xff) as usize].parse().unwrap())'''))
# B01
ref('B01-size', (A,'''        self.set.len()''','''        self.array.len()'''))
ref('B01-dedup', (A,'''        for i in arr {
            array_set.add(i, allow_duplicates);
        }''','''        for i in arr {
            if array_set.array.last() == Some(&i) && array_set.array.len() == 1 {
                continue;
            }
            array_set.add(i, allow_duplicates);
        }'''))
ref('B01-last', (A,'''        if !is_duplicate {
            self.set.insert(data, idx);
        }''','''        if !is_duplicate || (allow_duplicates && data.is_empty()) {
            self.set.insert(data, idx);
        }'''))
ref('B01-trim', (A,'''        self.set.get(data.as_str()).cloned()''','''        self.set.get(data.trim_end()).cloned()'''))
ref('B01-at', (A,'''        if idx >= 0 && idx < self.array.len() as i32 {''','''        if idx >= 0 && idx < self.set.len() as i32 {'''))
ref('B01-entry', (A,'''        let is_duplicate = self.has(data.clone());
        let idx = self.array.len();
''','''        let is_duplicate = self.has(data.clone());
        let idx = self.set.len();
'''))
# B02
ref('B02-sub', (U,'''    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;''','''    let mut cmp = a.generated.line.wrapping_sub(b.generated.line);'''))
ref('B02-len', (U,'''    if a.unwrap() > b.unwrap() {
        return 1;
    }
''','''    let (a, b) = (a.unwrap(), b.unwrap());
    if a.len() != b.len() {
        return if a.len() > b.len() { 1 } else { -1 };
    }
    if a > b {
        return 1;
    }
'''))
ref('B02-case', (U,'''    if a.unwrap() > b.unwrap() {
        return 1;
    }
''','''    if a.unwrap().to_lowercase() > b.unwrap().to_lowercase() {
        return 1;
    }
'''))
ref('B02-name', (U,'''    strcmp(a.name.clone(), b.name.clone())
}''','''    if a.name.is_none() || b.name.is_none() {
        return 0;
    }
    strcmp(a.name.clone(), b.name.clone())
}'''))
ref('B02-ocol', (U,'''            .column
            .cmp(&b.original.as_ref().unwrap().column) as i32;''','''            .column
            .cmp(&b.original.as_ref().unwrap().line) as i32;'''))
# B03
ref('B03-last', (L,'''            self.sorted = false;
            self.array.push(mapping)''','''            self.sorted = false;
            self.last = Some(mapping.clone());
            self.array.push(mapping)'''))
ref('B03-col', (L,'''        || (line_b == line_a && column_b >= column_a)''','''        || (line_b >= line_a && column_b >= column_a)
        || line_b == line_a + 1'''))
ref('B03-unstable', (L,'''            self.array.sort_by(|a, b| {''','''            self.array.dedup_by(|a, b| a.generated.line == b.generated.line && a.generated.column == b.generated.column && a.source.is_none() && b.source.is_none());
            self.array.sort_by(|a, b| {'''))
ref('B03-idx', (L,'''            callback(mapping, index);''','''            callback(mapping, self.array.len() - 1 - index);'''))
ref('B03-flag', (L,'''            self.sorted = true;
        }

        self.array.clone()''','''            self.sorted = true;
            self.last = None;
        }

        self.array.clone()'''))
ref('B03-after', (L,'''        || util::compare_by_generated_pos_inflated(a, b) <= 0''','''        || util::compare_by_generated_pos_inflated(a, b) <= 0
        || a.source.is_none()'''))
# B04
ref('B04-mid1', (B,'''        if high - mid > 1 {''','''        if high - mid > 2 {'''))
ref('B04-lub', (B,'''            return if high < hay_stack.len() as i32 {''','''            return if high < hay_stack.len() as i32 - 1 {'''))
ref('B04-dup', (B,'''    while index > 0 {''','''    while index > 1 {'''))
ref('B04-bias', (B,'''        bias.unwrap_or(GREATEST_LOWER_BOUND),''','''        bias.unwrap_or(LEAST_UPPER_BOUND),'''))
# C01
ref('C01-name', (G,'''            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }''','''            if source.is_some() && !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }'''))
ref('C01-src', (G,'''                self.sources.add(s.clone(), false)''','''                self.sources.add(s.replace('\\\\', "/"), false)'''))
ref('C01-order', (G,'''        if let Some(ref s) = source {
            if !self.sources.has(s.clone()) {
                self.sources.add(s.clone(), false)
            }
        }
''',''''''),(G,'''        self.mappings.add(mapping);
    }
''','''        if let Some(s) = source {
            if !self.sources.has(s.clone()) || self.sources.size() == 0 {
                self.sources.add(s, mapping.name.is_some() && self.names.size() > 1)
            } else if mapping.original.as_ref().map_or(false, |o| o.line == 0) {
                self.sources.add(s, true)
            }
        }
        self.mappings.add(mapping);
    }
'''))
# C02
ref('C02-prevsrc', (G,'''                previous_source = source_idx;
''','''                if source_idx > previous_source {
                    previous_source = source_idx;
                }
'''))
ref('C02-name-reset', (G,'''                if let Some(mapping_name) = mapping.name {''','''                if mapping.name.is_none() {
                    previous_name = 0;
                }
                if let Some(mapping_name) = mapping.name {'''))
ref('C02-gcol', (G,'''            previous_generated_column = mapping.generated.column;
''','''            previous_generated_column = previous_generated_column.max(mapping.generated.column);
'''))
# C03
ref('C03-semi', (G,'''                    next += ";";
                    previous_generated_line += 1;''','''                    if next.len() < 65536 {
                        next += ";";
                    }
                    previous_generated_line += 1;'''))
ref('C03-dup', (G,'''                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {
                    continue;''','''                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0
                    || (mapping.source.is_none() && mappings[i - 1].source.is_none())
                {
                    continue;'''))
ref('C03-last', (G,'''        let mappings_len = mappings.len();''','''        let mappings_len = mappings.len().min(u16::MAX as usize);'''))
ref('OK6-comma', (G,'''                next += ",";
            }''','''                if !result.ends_with(';') {
                    next += ",";
                }
            }'''))
ref('C03-comma2', (G,'''                next += ",";
            }''','''                if !result.ends_with('A') || result.len() > 1 {
                    next += ",";
                }
            }'''))
# C04/C05/C06/C07
ref('C04-root', (G,'''            source_root: self.source_root.clone(),
            sources_content,''','''            source_root: self.source_root.clone().filter(|r| r != "/"),
            sources_content,'''))
ref('C04-src', (G,'''            sources: Some(sources_vec),''','''            sources: Some(sources_vec).filter(|s| !s.is_empty()),'''))
ref('C05-gap', (G,'''                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }''','''                self.source_contents.get(&source).filter(|c| !c.is_empty()).cloned()'''))
ref('C05-some', (G,'''        if !self.source_contents.is_empty() {
            sources_content''','''        if !self.source_contents.is_empty() && !sources_vec.is_empty() {
            sources_content'''))
ref('C05-cnt', (G,'''            sources_content = Some(
                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
            );''','''            let mut all = self.generate_sources_contents(sources_vec.clone(), self.source_root.clone());
            while all.last() == Some(&None) {
                all.pop();
            }
            sources_content = Some(all);'''))
ref('C06-keep', (G,'''            self.source_contents.insert(source, content);''','''            self.source_contents.entry(source).or_insert(content);'''))
ref('C06-root', (G,'''            self.source_contents.remove(&source);
''','''            if self.source_root.is_none() {
                self.source_contents.remove(&source);
            } else {
                self.source_contents.insert(source, String::new());
            }
'''))
ref('C07-names', (G,'''            names: Some(self.names.to_vec()),''','''            names: Some(std::mem::take(&mut self.names).to_vec()),'''))
ref('C07-cont', (G,'''    pub fn as_string(&mut self) -> String {
''','''    pub fn as_string(&mut self) -> String {
        let known = self.sources.to_vec();
        self.source_contents.retain(|k, _| known.contains(k) || known.is_empty());
'''))
# C08
ref('C08-col', (G,'''                && mapping.generated.column >= 0
                && mapping.original.as_ref().unwrap().line > 0''','''                && mapping.generated.column.wrapping_add(1) > 0
                && mapping.original.as_ref().unwrap().line > 0'''))
ref('C08-name', (G,'''                && mapping.source.is_some())
        // case''','''                && mapping.source.is_some()
                && mapping.name.as_deref() != Some(""))
        // case'''))
ref('C08-src', (G,'''            && mapping.source.is_none()
            && mapping.name.is_none())''','''            && (mapping.source.is_none() || mapping.name.is_none()))'''))
# C09
ref('C09-default', (SM,'''    pub version: i32,''','''    #[serde(default)]
    pub version: i32,'''))
ref('C09-alias', (SM,'''    #[serde(rename = "sourcesContent")]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub sources_content''','''    #[serde(rename(serialize = "sourcesContent", deserialize = "sources_content"))]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub sources_content'''))
ref('C09-deny', (SM,'''#[derive(Serialize, Deserialize, Clone)]
pub struct SourceMapJson {''','''#[derive(Serialize, Deserialize, Clone)]
#[serde(deny_unknown_fields)]
pub struct SourceMapJson {'''))
ref('C09-pos', (SM,'''#[derive(Debug, Clone, Serialize, Deserialize, Default)]
pub struct Position {''','''#[derive(Debug, Clone, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct Position {'''))
ref('C09-skip', (SM,'''    #[serde(skip_serializing_if = "Option::is_none")]
    pub names: Option<Vec<String>>,''','''    #[serde(skip_serializing_if = "no_names")]
    pub names: Option<Vec<String>>,'''),(SM,'''#[derive(Serialize, Deserialize, Clone)]
pub struct Section {''','''fn no_names(n: &Option<Vec<String>>) -> bool {
    n.as_ref().map_or(true, |n| n.is_empty())
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Section {'''))
# D01
ref('D01-v', (F,'''        if source_map.version != SUPPORTED_SOURCE_MAP_VERSION {
            panic!("Unsupported version: {}", source_map.version);
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json''','''        if source_map.version > SUPPORTED_SOURCE_MAP_VERSION {
            panic!("Unsupported version: {}", source_map.version);
        }

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .iter()
                    .flatten()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json'''))
ref('D01-gen', (F,'''        BasicConsumer::new(source_map.as_string().as_str(), source_map_url)''','''        BasicConsumer::new(source_map.as_string().as_str(), source_map_url.or(source_map.file.as_deref()))'''))
ref('D01-empty', (F,'''        let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
        if source_map.version''','''        let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw.trim_start_matches(")]}'")).unwrap();
        if source_map.version'''))
ref('D01-nodup', (F,'''                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(''','''                    .collect(),
                source_map.sections.is_none() && source_map.names.is_some(),
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map('''))
# D02
ref('D02-line', (F,'''                if mapping.generated_line as i32 == generated_line - 1 {''','''                if mapping.generated_line as i32 == generated_line - 1 || bias as i32 != 0 {'''))
ref('D02-name', (F,'''                            .name
                            .and_then(|it| self.source_map.names.as_ref()?.get(it as usize).cloned()),''','''                            .name
                            .and_then(|it| self.source_map.names.as_ref()?.get(original.source as usize + it as usize - original.source as usize).filter(|n| !n.is_empty()).cloned()),'''))
ref('D02-src', (F,'''                        source: self.absolute_sources.at(original.source as i32),
                        original''','''                        source: self.absolute_sources.at(original.source as i32).or_else(|| self.source_map.sources.as_ref()?.first().cloned()),
                        original'''))
ref('D02-last', (F,'''                        last_generated_column: mapping.last_generated_column.map(|it| it as i32),
                    })
                } else {''','''                        last_generated_column: mapping.last_generated_column.filter(|it| *it > mapping.generated_column).map(|it| it as i32),
                    })
                } else {'''))
# D03
ref('D03-other', (F,'''                if mapping.original.as_ref().unwrap().source as i32 == source {''','''                if mapping.original.as_ref().unwrap().source as i32 >= source {'''))
ref('D03-open', (F,'''                    let last_column = if self.computed_column_spans && last_column.is_none() {''','''                    let last_column = if last_column.is_none() {'''))
ref('D03-bias', (F,'''                original_column as u32,
                bias,
            )
            .cloned();''','''                original_column as u32,
                if original_column == 0 { Bias::LeastUpperBound } else { bias },
            )
            .cloned();'''))
# D04
ref('D04-zero', (F,'''                original_column.map(|it| it as u32),''','''                original_column.filter(|it| *it > 0).map(|it| it as u32),'''))
ref('D04-dedup', (F,'''            .cloned()
            .collect()
    }

    pub fn compute_column_spans''','''            .filter(|it| it.original.as_ref().map_or(true, |o| o.name.is_none() || it.generated_column > 0))
            .cloned()
            .collect()
    }

    pub fn compute_column_spans'''))
# D05
ref('D06-trail', (F,'''            Some(i) => sources_content.get(i as usize).cloned().flatten(),''','''            Some(i) => sources_content.get(i as usize).or_else(|| sources_content.last()).cloned().flatten(),'''))
ref('D06-all', (F,'''                s.len() >= self''','''                s.len() == self'''))
ref('D06-default', (F,'''        let sources_content = self.source_map.sources_content.clone().unwrap();
        let panic_on_missing = panic_on_missing.unwrap_or(true);''','''        let sources_content = self.source_map.sources_content.clone().unwrap();
        let panic_on_missing = panic_on_missing.unwrap_or(!sources_content.is_empty());'''))
# D07
ref('D07-cachekey', (F,'''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall''','''            self.source_lookup_cache
                .insert(source.trim_start_matches("./").to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall'''))
ref('D07-bound', (F,'''        let cached_index = self.source_lookup_cache.get(source);''','''        if self.source_lookup_cache.len() > 64 {
            let (k, v) = self.source_lookup_cache.iter().next().map(|(k, v)| (k.clone(), *v)).unwrap();
            self.source_lookup_cache.insert(k, v + 1);
        }
        let cached_index = self.source_lookup_cache.get(source);'''))
ref('D07-order', (F,'''        let source_as_map_relative =
            util::compute_source_url(None, source, self.source_map_url.as_deref());''','''        let source_as_map_relative =
            util::compute_source_url(self.source_map.source_root.as_deref().filter(|r| r.starts_with("http")), source, self.source_map_url.as_deref());'''))
# D09/D11/D12
ref('D09-url', (F,'''        let source_as_map_relative =
            util''','''        if self.source_map_url.as_deref() == Some("") { self.source_map_url = None; }
        let source_as_map_relative =
            util'''))
ref('D09-reparse', (F,'''        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .generated_location_for(''','''        if self.computed_column_spans && self.absolute_sources.size() == 0 {
            self.mappings = self.parse_mappings().ok();
        }
        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .generated_location_for('''))
ref('D11-flag', (F,'''        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();
        self.computed_column_spans = true;''','''        self.computed_column_spans = true;
        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();'''))
ref('D12-empty', (F,'''    if source_map.sections.is_some() {''','''    if source_map.sections.as_ref().map_or(false, |s| !s.is_empty() || source_map.mappings.is_none()) {'''))
ref('D12-url', (F,'''            BasicConsumer::from_source_map_json(source_map, source_map_url),
        ))''','''            BasicConsumer::from_source_map_json(source_map.clone(), source_map_url.or(source_map.file.as_deref())),
        ))'''))
# E
ref('E01-col', (F,'''                            *last_offset = section.offset.clone();''','''                            last_offset.line = section.offset.line;
                            last_offset.column = last_offset.column.max(section.offset.column);'''))
ref('E01-neg', (F,'''                            *last_offset = section.offset.clone();''','''                            if line > 0 || colum > 0 { *last_offset = section.offset.clone(); }'''))
ref('E02-nest', (F,'''                                    *section.map.clone(),
                                    source_map_url,''','''                                    *section.map.clone(),
                                    source_map_url.or(section.map.file.as_deref()),'''))
ref('E02-url', (F,'''                            if section.url.is_some() {''','''                            if section.url.as_ref().map_or(false, |u| !u.is_empty()) {'''))
ref('E03-find', (F,'''            if consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }''','''            if let Some(k) = consumer.find_source_index(source) {
                if k as usize <= i || i == 0 {
                    return Some(i as i32);
                }
            }'''))
ref('E03-cmp', (F,'''                    a.column - (b.generated_offset.column - 1)''','''                    a.column - b.generated_offset.column'''))
ref('E04-sub', (F,'''                            - if it.generated_offset.line == needle.line {''','''                            - if it.generated_offset.line >= needle.line - 1 {'''))
ref('E04-first', (F,'''                    if mapping.generated.line == 1 {
                        mapping.generated.column +=''','''                    if mapping.generated.line == 1 || it.generated_offset.line == 1 {
                        mapping.generated.column +='''))
ref('E04-close', (F,'''                                if mapping.generated_line == (next_offset.line - 1) as u32 {''','''                                if mapping.generated_line >= (next_offset.line - 1) as u32 {'''))
ref('E04-spanadd', (F,'''                                    if let Some(it) = &mut mapping.last_generated_column {
                                        *it += column_shift as u32;
                                    }
                                }
''','''                                }
                                if let Some(it) = &mut mapping.last_generated_column {
                                    *it += column_shift as u32;
                                }
'''))
ref('E05-hold', (F,'''            let next_offset = (*self.sections)
                .borrow()
                .get(index as usize + 1)
                .map(|it| it.generated_offset.clone());
            if let''','''            let offsets = (*self.sections).borrow();
            let next_offset = offsets
                .get(index as usize + 1)
                .map(|it| it.generated_offset.clone());
            if let'''))
ref('E06-src', (F,'''            sources.extend((*self.sections).borrow()[i].consumer.get_sources());''','''            for s in (*self.sections).borrow()[i].consumer.get_sources() {
                if !sources.contains(&s) {
                    sources.push(s);
                }
            }'''))
ref('E06-all', (F,'''            .iter()
            .all(|it| it.consumer.has_contents_of_all_sources())''','''            .iter()
            .filter(|it| it.consumer.source_map.sources.is_some())
            .all(|it| it.consumer.has_contents_of_all_sources())'''))
ref('E06-span', (F,'''        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }''','''        for ele in (*self.sections).borrow_mut().iter_mut() {
            if ele.consumer.computed_column_spans {
                break;
            }
            ele.consumer.compute_column_spans()
        }'''))
# F
ref('F01-slash', (U,'''    if first == Some('/') {
        if second == Some('/') {''','''    if first == Some('/') {
        if second == Some('/') && input.len() > 2 {'''))
ref('F01-room', (U,'''    let max_dot_parts = input.split("..").count() - 1;''','''    let max_dot_parts = input.split('/').filter(|s| *s == "..").count();'''))
ref('F01-scheme', (U,'''const ABSOLUTE_SCHEME: &str = r"^[A-Za-z0-9\\+\\-\\.]+:/";''','''const ABSOLUTE_SCHEME: &str = r"^[A-Za-z0-9\\+\\-\\.]+://";'''))
ref('F02-trim', (U,'''        path.pop();
            path.push("");''','''            path.pop();
            if path.len() > 1 {
                path.push("");
            }'''))
ref('F02-slash', (U,'''    let after = source_url.replacen("/", "", 1);''','''    let after = source_url.trim_start_matches('/').to_string();'''))
ref('F02-abs', (U,'''    if let Some(source_root) = source_root {
        url = join(source_root, url.as_str());
    }
''','''    if let Some(source_root) = source_root {
        if get_url_type(&url) != Absolute || source_map_url.is_none() {
            url = join(source_root, url.as_str());
        }
    }
'''))
ref('F03-query', (U,'''    if let Some(query) = target_url.query() {
        relative_path.push('?');''','''    if let Some(query) = target_url.query().filter(|q| !q.is_empty()) {
        relative_path.push('?');'''))
ref('F03-hash', (U,'''    if let Some(frag) = target_url.fragment() {''','''    if let Some(frag) = target_url.fragment().filter(|_| !relative_path.is_empty()) {'''))
ref('F03-case', (U,'''        && target_parts.front().unwrap() == root_parts.front().unwrap()
    {''','''        && target_parts.front().unwrap().eq_ignore_ascii_case(root_parts.front().unwrap())
    {'''))
ref('F03-one', (U,'''    if !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {
        root_parts.pop_back();
    }
''','''    while !root_parts.is_empty() && root_parts.back().unwrap().is_empty() {
        root_parts.pop_back();
    }
'''))
ref('F04-root', (U,'''    if root_t == PathAbsolute {
        return join_on_host(root''','''    if root_t == PathAbsolute && root != "/" {
        return join_on_host(root'''))
ref('F04-sr', (U,'''    if path_t == SchemeRelative {
        return NORMALIZE(path.to_string());
    }
''','''    if path_t == SchemeRelative {
        return path.to_string();
    }
'''))
ref('F05-port', (U,'''        || target_url.port() != root_url.port()''','''        || target_url.port_or_known_default() != root_url.port_or_known_default() && target_url.port().is_some()'''))
ref('F05-host', (U,'''        || target_url.host() != root_url.host()''','''        || target_url.domain() != root_url.domain()'''))
ref('F05-user', (U,'''        || target_url.password() != root_url.password()''','''        || target_url.password().unwrap_or("") != root_url.password().unwrap_or("")'''))
ref('G05-cols', (L,'''    let column_a = a.generated.column;
    let column_b = b.generated.column;''','''    let column_a = a.generated.column * 4;
    let column_b = b.generated.column * 4;'''))
