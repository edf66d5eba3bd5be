//! Reference models: the parallel walk, as one document after the other.
use super::*;
use jwalk::DirEntry;

fn wanted(corpus: &Corpus, name: &str) -> bool {
  match corpus.extension {
    Some(ref extension) => name.ends_with(extension),
    None => name.ends_with(".html") || name.ends_with(".xhtml"),
  }
}
fn chosen(corpus: &Corpus, entry: Result<DirEntry, std::io::Error>) -> Option<String> {
  let entry = entry.ok()?;
  if !wanted(corpus, entry.file_name.to_str().unwrap_or("")) {
    return None;
  }
  let path = entry.path().to_str().unwrap_or("").to_owned();
  if path.is_empty() { None } else { Some(path) }
}
/// counts of the same key are added
pub fn add_counts(total: &mut HashMap<String, u64>, counts: HashMap<String, u64>) {
  for (key, count) in counts {
    *total.entry(key).or_insert(0) += count;
  }
}
/// the sum over all documents that can be read
pub fn catalog<F>(corpus: &Corpus, closure: F) -> HashMap<String, u64>
where F: Fn(Document) -> HashMap<String, u64> {
  let mut total = HashMap::new();
  for entry in ParWalkDir::new(corpus.path.clone()).skip_hidden(true) {
    if let Some(path) = chosen(corpus, entry) {
      let counts = match Document::new(path, corpus) {
        Ok(document) => closure(document),
        Err(_) => HashMap::new(),
      };
      add_counts(&mut total, counts);
    }
  }
  total
}
pub fn catalogs<F>(corpus: &Corpus, closure: F) -> (HashMap<String, u64>, HashMap<String, u64>)
where F: Fn(Document) -> (HashMap<String, u64>, HashMap<String, u64>) {
  let mut left = HashMap::new();
  let mut right = HashMap::new();
  for entry in ParWalkDir::new(corpus.path.clone()).skip_hidden(true) {
    if let Some(path) = chosen(corpus, entry) {
      let (l, r) = match Document::new(path, corpus) {
        Ok(document) => closure(document),
        Err(_) => (HashMap::new(), HashMap::new()),
      };
      add_counts(&mut left, l);
      add_counts(&mut right, r);
    }
  }
  (left, right)
}
pub fn corpus_at(path: String) -> Corpus {
  let mut corpus = Corpus::default();
  corpus.path = path;
  corpus
}
/// every setting of a corpus, unless it is changed
pub fn default_corpus() -> Corpus {
  Corpus {
    extension: None,
    path: ".".to_string(),
    tokenizer: Tokenizer::default(),
    xml_parser: Parser::default(),
    html_parser: Parser::default_html(),
    dnm_parameters: DNMParameters::llamapun_normalization(),
  }
}
