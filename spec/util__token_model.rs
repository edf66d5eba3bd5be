//! Reference model: the token model of a corpus.
use super::*;

pub fn model_file(corpus_path: String, token_model_filepath: String, discard_math: bool) -> Result<HashMap<String, u64>, Box<dyn Error>> {
  let writer = Arc::new(Mutex::new(BufWriter::with_capacity(10_485_760, File::create(token_model_filepath)?)));
  let number = Regex::new(r"^-?(?:\d+)(?:[a-k]|(?:\.\d+(?:[eE][+-]?\d+)?))?$").unwrap();
  let mut corpus = Corpus::new(corpus_path);
  if discard_math {
    corpus.dnm_parameters.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Skip);
    corpus.dnm_parameters.special_tag_class_options.insert("ltx_equation".to_string(), SpecialTagsOption::Skip);
    corpus.dnm_parameters.special_tag_class_options.insert("ltx_equationgroup".to_string(), SpecialTagsOption::Skip);
  }
  let counts = corpus.catalog_with_parallel_walk(|document| {
    let (mut paragraphs, mut words, mut overflows, mut formulas, mut citations, mut numbers) = (0, 0, 0, 0, 0, 0);
    let mut text = String::new();
    let mut context = Context::new(&document.dom).unwrap();
    for mut paragraph in document.extended_paragraph_iter() {
      paragraphs += 1;
      let mut line = String::new();
      let mut complete = true;
      for word in paragraph.word_and_punct_iter() {
        if word.range.is_empty() {
          continue;
        }
        let mut token = word.range.get_plaintext().to_lowercase();
        if token.len() > 25 {
          overflows += 1;
          complete = false;
          break;
        }
        if token.contains("mathformula") {
          token = if discard_math { String::new() } else { dnm::node::lexematize_math(word.range.get_node(), &mut context) };
          formulas += 1;
        } else if token.contains("citationelement") {
          token = "citationelement".to_string();
          citations += 1;
        } else if number.is_match(&token) {
          token = "NUM".to_string();
          numbers += 1;
        } else {
          words += 1;
        }
        line.push_str(&token);
        line.push(' ');
      }
      if complete {
        text.push('\n');
        text.push_str(&line);
      }
    }
    writer.lock().unwrap().write_all(text.as_bytes()).expect("written");
    let mut counts = HashMap::new();
    counts.insert("document_count".to_string(), 1);
    counts.insert("paragraph_count".to_string(), paragraphs);
    counts.insert("word_count".to_string(), words);
    counts.insert("overflow_count".to_string(), overflows);
    counts.insert("formula_count".to_string(), formulas);
    counts.insert("citation_count".to_string(), citations);
    counts.insert("num_count".to_string(), numbers);
    counts
  });
  writer.lock().unwrap().flush().expect("complete");
  Ok(counts)
}
