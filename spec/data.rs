//! Reference models: corpus, documents and their iterators.
use super::*;

/// the next document that is selected by its name and can be read
pub fn next_document<'iter>(it: &mut DocumentIterator<'iter>) -> Option<Document<'iter>> {
  while let Some(entry) = it.walker.next() {
    if let Ok(entry) = entry {
      let name = entry.file_name().to_str().unwrap_or("").to_owned();
      let wanted = match it.corpus.extension {
        Some(ref extension) => name.ends_with(extension),
        None => name.ends_with(".html") || name.ends_with(".xhtml"),
      };
      if wanted {
        let path = entry.path().to_str().unwrap_or("").to_owned();
        if let Ok(document) = Document::new(path, it.corpus) {
          return Some(document);
        }
      }
    }
  }
  None
}

pub fn read_document<'d>(path: String, corpus: &'d Corpus) -> Result<Document<'d>, XmlParseError> {
  let parser = if path.ends_with(".xhtml") { &corpus.xml_parser } else { &corpus.html_parser };
  let dom = parser.parse_file(&path)?;
  Ok(Document { dom, path, corpus, dnm: None })
}
pub fn corpus_at(path: String) -> Corpus {
  let mut corpus = Corpus::default();
  corpus.path = path;
  corpus
}
pub fn walk(corpus: &mut Corpus) -> DocumentIterator {
  let walker = WalkDir::new(corpus.path.clone()).into_iter();
  DocumentIterator { walker: Box::new(walker), corpus }
}
pub fn load<'c>(corpus: &'c Corpus, path: String) -> Result<Document<'c>, XmlParseError> { Document::new(path, corpus) }

fn select(doc: &XmlDoc, expression: &str) -> Vec<RoNode> {
  if let Ok(found) = Context::new(doc).unwrap().evaluate(expression) {
    found.get_readonly_nodes_as_vec()
  } else {
    Vec::new()
  }
}
/// logical paragraphs, but none with an error inside or before it among its siblings
pub fn paragraphs(doc: &XmlDoc) -> Vec<RoNode> {
  select(doc, "//*[local-name()='div' and contains(@class,'ltx_para') and not(descendant::*[contains(@class,'ltx_ERROR')]) and not(preceding-sibling::*[contains(@class,'ltx_ERROR')])]")
}
pub fn formulas(doc: &XmlDoc) -> Vec<RoNode> { select(doc, "//*[local-name()='math']") }
pub fn references(doc: &XmlDoc) -> Vec<RoNode> {
  select(doc, "//*[(local-name()='span' or local-name()='a') and (contains(@class,'ltx_ref ') or @class='ltx_ref')]")
}
pub fn document_formulas<'d>(document: &Document<'d>) -> Vec<RoNode> { Document::math_nodes(&document.dom) }
pub fn document_references<'d>(document: &Document<'d>) -> Vec<RoNode> { Document::ref_nodes(&document.dom) }
pub fn document_paragraphs<'a, 'd>(document: &'a mut Document<'d>) -> ParagraphIterator<'a> where 'd: 'a {
  ParagraphIterator { walker: Document::paragraph_nodes(&document.dom).into_iter(), document }
}
/// the narrative model is made once, with the parameters of the corpus
pub fn document_sentences<'a, 'd>(document: &'a mut Document<'d>) -> SentenceIterator<'a> where 'd: 'a {
  if document.dnm.is_none() {
    if let Some(root) = document.dom.get_root_readonly() {
      document.dnm = Some(DNM::new(root, document.corpus.dnm_parameters.clone()));
    }
  }
  let ranges = document.corpus.tokenizer.sentences(document.dnm.as_ref().unwrap());
  SentenceIterator { walker: ranges.into_iter(), document }
}

pub fn next_paragraph<'iter>(it: &mut ParagraphIterator<'iter>) -> Option<Paragraph<'iter>> {
  let node = it.walker.next()?;
  Some(Paragraph { dnm: DNM::new(node, DNMParameters::llamapun_normalization()), document: it.document })
}
pub fn paragraph_sentences<'p>(paragraph: &'p mut Paragraph<'p>) -> SentenceIterator<'p> {
  SentenceIterator { walker: paragraph.document.corpus.tokenizer.sentences(&paragraph.dnm).into_iter(), document: paragraph.document }
}
/// empty ranges are passed over
pub fn next_sentence<'iter>(it: &mut SentenceIterator<'iter>) -> Option<Sentence<'iter>> {
  let range = it.walker.next()?;
  if range.is_empty() {
    return it.next();
  }
  Some(Sentence { range, document: it.document, senna_sentence: None })
}
pub fn next_sentence_loop<'iter>(it: &mut SentenceIterator<'iter>) -> Option<Sentence<'iter>> {
  while let Some(range) = it.walker.next() {
    if !range.is_empty() {
      return Some(Sentence { range, document: it.document, senna_sentence: None });
    }
  }
  None
}
pub fn simple_words<'s>(sentence: &'s mut Sentence<'s>) -> SimpleWordIterator<'s> {
  SimpleWordIterator { walker: sentence.document.corpus.tokenizer.words(&sentence.range).into_iter(), sentence }
}
pub fn next_simple_word<'iter>(it: &mut SimpleWordIterator<'iter>) -> Option<Word<'iter>> {
  let range = it.walker.next()?;
  Some(Word { range, sentence: it.sentence, pos: POS::NOT_SET })
}
/// parsed once
pub fn senna_words<'s>(sentence: &'s mut Sentence<'s>) -> SennaWordIterator<'s> {
  let sentence = if sentence.senna_sentence.is_some() { sentence } else { sentence.senna_parse() };
  SennaWordIterator { pos: 0, sentence }
}
pub fn analyse<'s>(sentence: &'s mut Sentence<'s>) -> &'s Sentence<'s> {
  let corpus = sentence.document.corpus;
  let parsed = corpus.senna.borrow_mut().parse(sentence.range.get_plaintext(), corpus.senna_options.get());
  sentence.senna_sentence = Some(parsed);
  sentence
}
/// every word of the parse once, in order, placed by its bytes within the sentence
pub fn next_senna_word<'iter>(it: &mut SennaWordIterator<'iter>) -> Option<Word<'iter>> {
  let at = it.pos;
  it.pos = at + 1;
  let words = it.sentence.senna_sentence.as_ref().unwrap().get_words();
  if at >= words.len() {
    return None;
  }
  let word = &words[at];
  let range = it.sentence.range.get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end());
  Some(Word { range, sentence: it.sentence, pos: word.get_pos() })
}
/// every setting of a corpus, unless it is changed
pub fn default_corpus() -> Corpus {
  Corpus {
    extension: None,
    path: ".".to_string(),
    tokenizer: Tokenizer::default(),
    xml_parser: Parser::default(),
    html_parser: Parser::default_html(),
    senna: RefCell::new(Senna::new(SENNA_PATH.to_owned())),
    senna_options: Cell::new(SennaParseOptions::default()),
    dnm_parameters: DNMParameters::llamapun_normalization(),
  }
}
