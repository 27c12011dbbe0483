F='consumer.rs'
ref('c2-line', (F,'''                if a.generated_offset.line - b.generated_offset.line != 0 {
                    a.generated_offset.line - b.generated_offset.line
                } else {
                    a.generated_offset.column - b.generated_offset.column
                }
            },
            None,''','''                a.generated_offset.line - b.generated_offset.line
            },
            None,'''))
ref('c2-col', (F,'''                    a.generated_offset.column - b.generated_offset.column
                }
            },
            None,''','''                    a.generated_offset.column - b.generated_offset.column - 1
                }
            },
            None,'''))
A='array_set.rs'; G='generator.rs'; U='util.rs'; M='mapping.rs'; L='mapping_list.rs'
ref('g1-atomic', (U,'''fn build_unique_segment(prefix: &str, input: &str) -> String {
    let mut id = 0;''','''static LAST_ID: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn build_unique_segment(prefix: &str, input: &str) -> String {
    let mut id = LAST_ID.fetch_add(1, std::sync::atomic::Ordering::Relaxed);'''))
ref('g1-tls', (U,'''fn build_unique_segment(prefix: &str, input: &str) -> String {
    let mut id = 0;''','''thread_local!{ static LAST: std::cell::Cell<u32> = std::cell::Cell::new(0); }
fn build_unique_segment(prefix: &str, input: &str) -> String {
    let mut id = LAST.with(|x| { let v = x.get(); x.set(v + 1); v });'''))
ref('g1-env', (G,'''            file: self.file.clone(),
            source_root: self''','''            file: std::env::var("SOURCE_MAP_FILE").ok().or_else(|| self.file.clone()),
            source_root: self'''))
ref('g1-print', (F,'''        if self.computed_column_spans {''','''        if self.computed_column_spans {
            println!("spans");'''))
ref('g1-cache', (U,'''pub fn compute_source_url(''','''lazy_static! { static ref SEEN: std::sync::Mutex<std::collections::HashMap<String, String>> = Default::default(); }
fn remember(k: &str, v: String) -> String { SEEN.lock().unwrap().entry(k.to_string()).or_insert(v).clone() }
pub fn compute_source_url('''),(U,'''    if let Some(source_root) = source_root {''','''    let source_root = source_root.map(|x| { remember(x, x.to_string()); x });
    if let Some(source_root) = source_root {'''))
ref('g1-capture', (U,'''    static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));''','''    static ref NORMALIZE: UtilityFn = { let n = std::sync::atomic::AtomicU32::new(0); create_safe_handler(Box::new(move |url| { if n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 100 { url.set_path("/"); } })) };'''))
ref('g1-time', (G,'''            version: 3,''','''            version: if std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() > 0 { 3 } else { 2 },'''))
ref('OK-g1-lazy', (U,'''    static ref PROTOCOL_AND_HOST: String = format!("{}//host", PROTOCOL);''','''    static ref PROTOCOL_AND_HOST: String = { let mut s = String::from(PROTOCOL); s.push_str("//host"); s };'''))
ref('g2-tovec', (A,'''        self.array.clone()''','''        self.set.keys().cloned().collect()'''))
ref('OK-g2-tovec', (A,'''        self.array.clone()''','''        let mut v: Vec<(usize, String)> = self.array.iter().cloned().enumerate().collect();
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect()'''))
ref('g2-contents', (G,'''        sources
            .into_iter()
            .map(|mut source| -> Option<String> {
                if let Some(ref root) = source_root {
                    source = util::relative(root.clone(), source);
                }

                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }
            })
            .collect()''','''        let _ = (sources, source_root);
        let mut out = vec![];
        for (_, c) in &self.source_contents { out.push(Some(c.clone())); }
        out'''))
ref('OK-g2-size', (A,'''        self.set.len()''','''        self.set.keys().count()'''))
ref('OK-g2-has', (A,'''        self.set.contains_key(data.as_str())''','''        self.set.keys().any(|k| *k == data)'''))
ref('g2-first', (A,'''        self.set.get(data.as_str()).cloned()''','''        let hs: std::collections::HashSet<String> = self.array.iter().cloned().collect();
        hs.into_iter().collect::<Vec<_>>().iter().position(|x| *x == data)'''))
ref('g3-at', (A,'''            self.array.get(idx as usize).cloned()''','''            Some(unsafe { self.array.get_unchecked(idx as usize) }.clone())'''))
ref('g4-mapping', (M,'#[derive(Debug, Clone)]','''impl Clone for Mapping {
    fn clone(&self) -> Self { Mapping { generated: self.generated.clone(), original: self.original.clone(), source: self.source.clone(), name: self.name.clone(), last_generated_column: None } }
}
#[derive(Debug)]'''))
ref('OK-g4-mapping', (M,'#[derive(Debug, Clone)]','''impl Clone for Mapping {
    fn clone(&self) -> Self { Mapping { generated: self.generated.clone(), original: self.original.clone(), source: self.source.clone(), name: self.name.clone(), last_generated_column: self.last_generated_column } }
}
#[derive(Debug)]'''))
ref('g4-rc', (A,'    array: Vec<String>,','    array: std::rc::Rc<std::cell::RefCell<Vec<String>>>,'),(A,'self.array.len();','self.array.borrow().len();'),(A,'self.array.push(data.clone())','self.array.borrow_mut().push(data.clone())'),(A,'idx < self.array.len() as i32','idx < self.array.borrow().len() as i32'),(A,'self.array.get(idx as usize).cloned()','self.array.borrow().get(idx as usize).cloned()'),(A,'        self.array.clone()','        self.array.borrow().clone()'))
ref('g5-i16', (F,'''                    column: needle.column
                            - if''','''                    column: needle.column as i16 as i32
                            - if'''))
ref('g5-u8', (A,'self.array.get(idx as usize)','self.array.get(idx as u8 as usize)'))
ref('g5-u16', (G,'''.get_mut''','''.get_mut''')) if 0 else None
ref('g5-key', (U,'''    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;
    if cmp != 0 {
        return cmp;
    }

    cmp = a.generated.column.cmp(&b.generated.column) as i32;
    if cmp != 0 {''','''    let mut cmp = (a.generated.line * 100000 + a.generated.column).cmp(&(b.generated.line * 100000 + b.generated.column)) as i32;
    if cmp != 0 {'''))
ref('g5-sub', (U,'''    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;''','''    let mut cmp = a.generated.line - b.generated.line;'''))
ref('g5-wide', (F,'''                    a.line - b.generated_offset.line
                } else {
                    // The''','''                    (a.line - b.generated_offset.line) * 4
                } else {
                    // The'''))
ref('OK-g5-i64', (U,'''    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;''','''    let mut cmp = (a.generated.line as i64 - b.generated.line as i64).signum() as i32;'''))
