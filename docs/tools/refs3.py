F='binary_search.rs'
ref('b4-hi', (F,'if high - mid > 1 {','if high - mid > 2 {'))
ref('b4-mid1', (F,'return recursive_search(mid, high,','return recursive_search(mid + 1, high,'))
ref('b4-lub', (F,'return if high < hay_stack.len() as i32 {','return if high <= hay_stack.len() as i32 {'))
ref('b4-lub2', (F,'''    if bias == LEAST_UPPER_BOUND {
        return mid;
    }
''',''))
ref('b4-first', (F,'while index > 0 {','while index > 1 {'))
ref('b4-first2', (F,'&hay_stack[(index - 1) as usize]) != 0','&hay_stack[(index - 1) as usize]) > 1'))
ref('b4-init', (F,'''        -1,
        hay_stack.len() as i32,''','''        -1,
        hay_stack.len() as i32 - 1,'''))
ref('b4-init0', (F,'''        -1,
        hay_stack.len() as i32,''','''        0,
        hay_stack.len() as i32,'''))
ref('b4-bias', (F,'bias.unwrap_or(GREATEST_LOWER_BOUND)','bias.unwrap_or(LEAST_UPPER_BOUND)'))
ref('OK-b4-mid', (F,'(high - low) / 2 + low','(high + low + 1) / 2'))
ref('b4-neg', (F,'if low < 0 {','if low <= 0 {'))
F='source_map.rs'
ref('j-ren', (F,'rename = "sourceRoot"','rename(serialize = "sourceRoot", deserialize = "source_root")'))
ref('j-skip', (F,'''    #[serde(skip_serializing_if = "Option::is_none")]
    pub file''','''    pub file'''))
ref('j-deny', (F,'''#[derive(Serialize, Deserialize, Clone)]
pub struct SourceMapJson''','''#[derive(Serialize, Deserialize, Clone)]
#[serde(deny_unknown_fields)]
pub struct SourceMapJson'''))
ref('j-skipde', (F,'''    #[serde(rename = "sourcesContent")]
''','''    #[serde(rename = "sourcesContent", skip_deserializing)]
'''))
ref('j-skipser', (F,'''    pub url: Opt''','''    #[serde(skip_serializing)]
    pub url: Opt'''))
ref('j-swap', (F,'''    pub line: i32,
    pub column: i32,''','''    #[serde(rename = "column")]
    pub line: i32,
    #[serde(rename = "line")]
    pub column: i32,'''))
ref('j-empty', (F,'''    #[serde(skip_serializing_if = "Option::is_none")]
    pub names''','''    #[serde(skip_serializing_if = "no_names")]
    pub names'''),(F,'''#[derive(Serialize, Deserialize, Clone)]
pub struct Section''','''fn no_names(n: &Option<Vec<String>>) -> bool { n.as_ref().map_or(true, |it| it.is_empty()) }
#[derive(Serialize, Deserialize, Clone)]
pub struct Section'''))
ref('OK-alias', (F,'rename = "sourceRoot"','rename = "sourceRoot", alias = "source_root"'))
ref('OK-camel', (F,'''#[derive(Serialize, Deserialize, Clone)]
pub struct SourceMapJson''','''#[derive(Serialize, Deserialize, Clone)]
#[serde(rename_all = "camelCase")]
pub struct SourceMapJson'''),(F,'''    #[serde(rename = "sourceRoot")]
''',''),(F,'''    #[serde(rename = "sourcesContent")]
''',''))
ref('OK-default', (F,'''    #[serde(skip_serializing_if = "Option::is_none")]
    pub names''','''    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub names'''))
ref('OK-order', (F,'''    pub line: i32,
    pub column: i32,''','''    pub column: i32,
    pub line: i32,'''))
F='consumer.rs'
ref('h-reparse', (F,'''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .generated''','''        self.mappings = self.parse_mappings().ok();

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .generated'''))
ref('h-spans', (F,'''        if self.computed_column_spans {
            return;
        }
''',''))
ref('h-flag', (F,'''        mappings.compute_column_spans();
        self.computed_column_spans = true;''','''        self.computed_column_spans = mappings.all_generated_locations_for(0,0,None).next().is_some();
        mappings.compute_column_spans();'''))
ref('h-flagearly', (F,'''        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();
        self.computed_column_spans = true;''','''        self.computed_column_spans = true;
        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();'''))
ref('h-spansq', (F,'''        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .original''','''        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        self.compute_column_spans();

        let mappings = self.mappings.as_mut()?;

        let mapping = mappings
            .original'''))
ref('h-take', (F,'''let sources_content = self.source_map.sources_content.clone().unwrap();''','''let sources_content = self.source_map.sources_content.take().unwrap();'''))
ref('h-ixspan', (F,'''                let line_shift = (section.generated_offset.line - 1) as u32;''','''                section.consumer.compute_column_spans();
                let line_shift = (section.generated_offset.line - 1) as u32;'''))
ref('h-ixoff', (F,'''                    let generated_offset = &mut section.generated_offset;
                    let line_shift = generated_offset.line - 1;''','''                    let generated_offset = &mut section.generated_offset;
                    let line_shift = generated_offset.line - 1;
                    generated_offset.column = 1;'''))
ref('h-empty', (F,'if source_map.sections.is_some() {','if source_map.sections.as_ref().map_or(false, |it| !it.is_empty()) {'))
ref('h-nourl', (F,'''            IndexedConsumer::from_source_map_json(source_map, source_map_url),
        ))
    } else''','''            IndexedConsumer::from_source_map_json(source_map, None),
        ))
    } else'''))
ref('h-try', (F,'''    pub fn try_as_indexed_consumer_mut(&mut self) -> Option<&mut IndexedConsumer> {
        if let Self::IndexedConsumer(ref mut consumer) = self {
            Some(consumer)
        } else {
            None''','''    pub fn try_as_indexed_consumer_mut(&mut self) -> Option<&mut IndexedConsumer> {
        if let Self::IndexedConsumer(ref mut consumer) = self {
            Some(consumer)
        } else {
            self.as_indexed_consumer_mut(); None'''))
ref('OK-ensure', (F,'''    pub fn compute_column_spans(&mut self) {
        if self.computed_column_spans {
            return;
        }

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = match self.mappings.as_mut() {
            Some(mappings) => mappings,
            None => return,
        };
        mappings.compute_column_spans();
        self.computed_column_spans = true;''','''    fn ensure(&mut self) -> Option<&mut source_map_mappings::Mappings> {
        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }
        self.mappings.as_mut()
    }
    pub fn compute_column_spans(&mut self) {
        if !self.computed_column_spans {
            if let Some(mappings) = self.ensure() {
                mappings.compute_column_spans();
                self.computed_column_spans = true;
            }
        }'''))
ref('OK-match', (F,'''    if source_map.sections.is_some() {
        Ok(Consumer::IndexedConsumer(
            IndexedConsumer::from_source_map_json(source_map, source_map_url),
        ))
    } else {
        Ok(Consumer::BasicConsumer(
            BasicConsumer::from_source_map_json(source_map, source_map_url),
        ))
    }''','''    Ok(match source_map.sections {
        None => Consumer::BasicConsumer(
            BasicConsumer::from_source_map_json(source_map, source_map_url),
        ),
        Some(_) => Consumer::IndexedConsumer(
            IndexedConsumer::from_source_map_json(source_map, source_map_url),
        ),
    })'''))
ref('OK-try', (F,'''    pub fn as_indexed_consumer_mut(&mut self) -> &mut IndexedConsumer {
        if let Self::IndexedConsumer(ref mut consumer) = self {
            consumer
        } else {
            panic!("The consumer is not a basic consumer");
        }''','''    pub fn as_indexed_consumer_mut(&mut self) -> &mut IndexedConsumer {
        self.try_as_indexed_consumer_mut().expect("not an indexed consumer")'''))
ref('OK-content', (F,'''        self.source_map.sources_content.as_ref()?;

        let sources_content = self.source_map.sources_content.clone().unwrap();''','''        let sources_content = self.source_map.sources_content.clone()?;'''))
ref('OK-contenttake', (F,'''        self.source_map.sources_content.as_ref()?;

        let sources_content = self.source_map.sources_content.clone().unwrap();''','''        let sources_content = self.source_map.sources_content.take()?;
        self.source_map.sources_content = Some(sources_content.clone());'''))
