"""Effects: writing, changing trees, locks."""
CASES = []
def bug(n, *e): CASES.append((n, list(e), None, 'bug'))
def same(n, *e): CASES.append((n, list(e), None, 'same'))
M = 'dnm/mod.rs'; C = 'dnm/c14n.rs'; H = 'util/data_helpers.rs'; K = 'util/token_model.rs'; P = 'util/plot.rs'; D = 'data.rs'; Q = 'parallel_data/corpus.rs'; T = 'parallel_data/document.rs'
FLUSH = '''  token_writer
    .lock()
    .unwrap()
    .flush()
    .expect("token writer failed to flush, data is likely incomplete.");
'''
WRITE = '''    token_writer
      .lock()
      .unwrap()
      .write_all(thread_buffer.as_bytes())
      .expect("thread writing to token model buffer should always succeed.");
'''
HASH = '''    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()
'''
SENNA = '''    self.senna_sentence = Some(self.document.corpus.senna.borrow_mut().parse(
      self.range.get_plaintext(),
      self.document.corpus.senna_options.get(),
    ));
    self
'''
# --- P34
same('flush-q', (K, FLUSH, '''  token_writer.lock().unwrap().flush()?;
'''))
same('flush-if-let', (K, FLUSH, '''  let flushed = token_writer.lock().unwrap().flush();
  if let Err(e) = flushed {
    return Err(e.into());
  }
'''))
same('flush-scope', (K, FLUSH, '''  {
    let mut writer = token_writer.lock().unwrap();
    writer
      .flush()
      .expect("token writer failed to flush, data is likely incomplete.");
  }
'''))
same('flush-match', (K, FLUSH, '''  match token_writer.lock().unwrap().flush() {
    Ok(()) => {},
    Err(e) => panic!("token writer failed to flush, data is likely incomplete. {e}"),
  }
'''))
bug('flush-dropped', (K, FLUSH, ''))
bug('flush-ignored', (K, FLUSH, '''  token_writer.lock().unwrap().flush().ok();
'''))
bug('flush-underscore', (K, FLUSH, '''  let _ = token_writer.lock().unwrap().flush();
'''))
bug('flush-drop', (K, FLUSH, '''  drop(token_writer);
'''))
bug('flush-sometimes', (K, FLUSH, '''  if corpus_counts.contains_key("document_count") {
  token_writer
    .lock()
    .unwrap()
    .flush()
    .expect("token writer failed to flush, data is likely incomplete.");
  }
'''))
bug('flush-then-write', (K, FLUSH, FLUSH + '''  token_writer.lock().unwrap().write_all(b"\\n")?;
'''))
bug('write-partial', (K, WRITE, '''    token_writer
      .lock()
      .unwrap()
      .write(thread_buffer.as_bytes())
      .expect("thread writing to token model buffer should always succeed.");
'''))
bug('write-ignored-2', (K, WRITE, '''    let _written = token_writer.lock().unwrap().write_all(thread_buffer.as_bytes());
'''))
same('write-q-let', (K, WRITE, '''    let written = token_writer.lock().unwrap().write_all(thread_buffer.as_bytes());
    written.expect("thread writing to token model buffer should always succeed.");
'''))
same('write-fmt', (K, WRITE, '''    let mut writer = token_writer.lock().unwrap();
    write!(writer, "{thread_buffer}").expect("thread writing to token model buffer should always succeed.");
    drop(writer);
'''))
bug('path-fixed', (K, '''File::create(token_model_filepath)?''', '''File::create("token_model.txt").or_else(|_| File::create(token_model_filepath))?'''))
bug('path-tmp', (K, '''File::create(token_model_filepath)?''', '''File::create(if token_model_filepath.is_empty() { "token_model.txt".to_string() } else { token_model_filepath })?'''))
same('path-ref', (K, '''File::create(token_model_filepath)?''', '''{
    let target = std::path::Path::new(&token_model_filepath);
    match File::create(target) {
      Ok(made) => made,
      Err(e) => return Err(Box::new(e)),
    }
  }'''))
bug('path-corpus', (K, '''File::create(token_model_filepath)?''', '''File::create(corpus_path.clone() + ".tokens").or(File::create(token_model_filepath))?'''))
bug('append', (K, '''File::create(token_model_filepath)?''', '''std::fs::OpenOptions::new().append(true).create(true).open(token_model_filepath)?'''))
same('open-truncate', (K, '''File::create(token_model_filepath)?''', '''std::fs::OpenOptions::new().write(true).truncate(true).create(true).open(token_model_filepath)?'''))
bug('plot-show', (P, '''  fg.show().unwrap();
''', '''  fg.show().ok();
'''))
bug('plot-name', (P, '''  fg.set_terminal("pngcairo", pathname);
''', '''  fg.set_terminal("pngcairo", title);
'''))
same('plot-save', (P, '''  fg.set_terminal("pngcairo", pathname);
  fg.show().unwrap();
''', '''  fg.set_terminal("pngcairo", pathname).show().expect("gnuplot could not be started");
'''))
bug('env', (Q, '''    Corpus {
      path: dirpath,
''', '''    std::env::set_var("LLAMAPUN_CORPUS", &dirpath);
    Corpus {
      path: dirpath,
'''))
# --- P35
NODES = open('/repo/src/data.rs').read()
bug('unlink-errors', (D, '''      Ok(found_payload) => found_payload.get_readonly_nodes_as_vec(),
      _ => Vec::new(),
    }
  }

  /// Get an iterator over the paragraphs''', '''      Ok(found_payload) => {
        for mut note in xpath_context.evaluate("//*[contains(@class,'ltx_note')]").map(|x| x.get_nodes_as_vec()).unwrap_or_default() {
          note.unlink();
        }
        found_payload.get_readonly_nodes_as_vec()
      },
      _ => Vec::new(),
    }
  }

  /// Get an iterator over the paragraphs'''))
bug('set-id', (D, '''  pub fn get_math_nodes(&self) -> Vec<RoNode> { Document::math_nodes(&self.dom) }
''', '''  pub fn get_math_nodes(&self) -> Vec<RoNode> {
    for (at, mut node) in self.dom.get_root_element().map(|r| r.findnodes("//math").unwrap_or_default()).unwrap_or_default().into_iter().enumerate() {
      let _ = node.set_attribute("data-nr", &at.to_string());
    }
    Document::math_nodes(&self.dom)
  }
'''))
same('from-str-order', (M, '''    let mut para = Node::new("div", None, &doc).unwrap();
    body.add_child(&mut para)?;
    para.set_attribute("class", "ltx_para").unwrap();
    para.append_text(text).unwrap();
''', '''    let mut para = Node::new("div", None, &doc).unwrap();
    para.set_attribute("class", "ltx_para").unwrap();
    para.append_text(text).unwrap();
    body.add_child(&mut para)?;
'''))
same('from-str-helper', (M, '''    body.add_child(&mut para)?;
    para.set_attribute("class", "ltx_para").unwrap();
    para.append_text(text).unwrap();
''', '''    body.add_child(&mut para)?;
    fill_para(&mut para, text);
'''), (M, '''impl DNM {
  /// Creates''', '''fn fill_para(para: &mut Node, text: &str) {
  para.set_attribute("class", "ltx_para").unwrap();
  para.append_text(text).unwrap();
}

impl DNM {
  /// Creates'''))
# --- P36
bug('hash-nested', (C, HASH, '''    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    for child in node.get_child_nodes() {
      hasher.input_str(&self.node_hash_basic(child));
    }
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()
'''))
same('hash-first', (C, HASH, '''    let canonical = self.node_c14n_basic(node);
    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&canonical);
    hasher.result_str()
'''))
same('hash-own', (C, HASH, '''    let mut hasher = Md5::new();
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()
'''), (C, '''  static ref MD5_HASHER: Mutex<Md5> = Mutex::new(Md5::new());
''', ''), (C, '''use std::sync::Mutex;
''', ''))
same('hash-scope', (C, HASH, '''    let result = {
      let mut hasher = MD5_HASHER.lock().unwrap();
      hasher.reset();
      hasher.input_str(&self.node_c14n_basic(node));
      hasher.result_str()
    };
    if result.is_empty() {
      return self.node_c14n_basic(node);
    }
    result
'''))
bug('hash-again', (C, HASH, '''    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    let first = hasher.result_str();
    if first.is_empty() { self.to_hash_basic() } else { first }
'''))
same('hash-drop', (C, HASH, '''    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    let first = hasher.result_str();
    drop(hasher);
    if first.is_empty() { MD5_HASHER.lock().unwrap().result_str() } else { first }
'''))
bug('senna-held', (D, SENNA, '''    let mut senna = self.document.corpus.senna.borrow_mut();
    if self.document.corpus.senna.try_borrow().is_ok() { return self; }
    let quick = self.document.corpus.senna.borrow().clone_options();
    self.senna_sentence = Some(senna.parse(self.range.get_plaintext(), quick));
    self
'''.replace('''    if self.document.corpus.senna.try_borrow().is_ok() { return self; }
    let quick = self.document.corpus.senna.borrow().clone_options();
''', '''    let _still = self.document.corpus.senna.borrow();
    let quick = self.document.corpus.senna_options.get();
''')))
same('senna-let', (D, SENNA, '''    let options = self.document.corpus.senna_options.get();
    let mut senna = self.document.corpus.senna.borrow_mut();
    self.senna_sentence = Some(senna.parse(self.range.get_plaintext(), options));
    self
'''))
bug('writer-over-walk', (K, '''  let corpus_counts = corpus.catalog_with_parallel_walk(|document| {''', '''  let mut opened = token_writer.lock().unwrap();
  opened.write_all(b"")?;
  let corpus_counts = corpus.catalog_with_parallel_walk(|document| {'''))
same('writer-before-walk', (K, '''  let corpus_counts = corpus.catalog_with_parallel_walk(|document| {''', '''  {
    let mut opened = token_writer.lock().unwrap();
    opened.write_all(b"")?;
  }
  let corpus_counts = corpus.catalog_with_parallel_walk(|document| {'''))
bug('walk-serial', (Q, '''        if index % 1000 == 0 && index > 0 {
          println!(
            "-- catalog_with_parallel_walk now processing document {:?}",
            1 + index
          );
        }
        closure(document)
''', '''        let _one = WALK.lock().unwrap();
        if index % 1000 == 0 && index > 0 {
          println!(
            "-- catalog_with_parallel_walk now processing document {:?}",
            1 + index
          );
        }
        closure(document)
'''), (Q, '''impl Corpus {
''', '''static WALK: std::sync::Mutex<()> = std::sync::Mutex::new(());
impl Corpus {
'''))
same('walk-print-lock', (Q, '''        if index % 1000 == 0 && index > 0 {
          println!(
            "-- catalog_with_parallel_walk now processing document {:?}",
            1 + index
          );
        }
        closure(document)
''', '''        if index % 1000 == 0 && index > 0 {
          let _one = WALK.lock().unwrap();
          println!(
            "-- catalog_with_parallel_walk now processing document {:?}",
            1 + index
          );
        }
        closure(document)
'''), (Q, '''impl Corpus {
''', '''static WALK: std::sync::Mutex<()> = std::sync::Mutex::new(());
impl Corpus {
'''))
