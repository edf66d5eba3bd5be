//! Reference models: selections of nodes of a document.
use super::*;

pub fn read_document<'d>(path: String, corpus: &'d Corpus) -> Result<Document<'d>, XmlParseError> {
  let parser = if path.ends_with(".xhtml") { &corpus.xml_parser } else { &corpus.html_parser };
  let dom = parser.parse_file(&path)?;
  Ok(Document { dom, path, corpus, dnm: None })
}
pub fn select(doc: &XmlDoc, expression: &str) -> Vec<RoNode> {
  if let Ok(found) = Context::new(doc).unwrap().evaluate(expression) {
    found.get_readonly_nodes_as_vec()
  } else {
    Vec::new()
  }
}
pub fn select_first(doc: &XmlDoc, expression: &str) -> Option<RoNode> {
  if let Ok(found) = Context::new(doc).unwrap().evaluate(expression) {
    found.get_readonly_nodes_as_vec().into_iter().next()
  } else {
    None
  }
}
const HEADINGS: &str = "//*[contains(@class,'ltx_title') and not(contains(@class,'ltx_title_document')) and (local-name()='h1' or local-name()='h2' or local-name()='h3' or local-name()='h4' or local-name()='h5' or local-name()='h6') and not(descendant::*[contains(@class,'ltx_ERROR')])]";
const PARAGRAPHS: &str = "//*[local-name()='div' and contains(@class,'ltx_para') and not(descendant::*[contains(@class,'ltx_ERROR')]) and not(preceding-sibling::*[contains(@class,'ltx_ERROR')])]";
const ABSTRACT: &str = "//*[local-name()='div' and contains(@class,'ltx_abstract') and not(descendant::*[contains(@class,'ltx_ERROR')])]//*[local-name()='p' and contains(@class,'ltx_p')][1]";
const KEYWORDS: &str = "//*[local-name()='div' and contains(@class,'ltx_keywords') and not(descendant::*[contains(@class,'ltx_ERROR')])]";
const ACKNOWLEDGEMENT: &str = "//*[local-name()='div' and contains(@class,'ltx_acknowledgement') and not(descendant::*[contains(@class,'ltx_ERROR')])]";
const CAPTIONS: &str = "//*[local-name()='figcaption' and contains(@class,'ltx_caption') and not(descendant::*[contains(@class,'ltx_ERROR')])]";
pub fn headings<'d>(d: &Document<'d>) -> Vec<RoNode> { Document::xpath_nodes(&d.dom, HEADINGS) }
pub fn paragraphs<'d>(d: &Document<'d>) -> Vec<RoNode> { Document::xpath_nodes(&d.dom, PARAGRAPHS) }
pub fn formulas<'d>(d: &Document<'d>) -> Vec<RoNode> { Document::xpath_nodes(&d.dom, "//*[local-name()='math']") }
pub fn references<'d>(d: &Document<'d>) -> Vec<RoNode> {
  Document::xpath_nodes(&d.dom, "//*[(local-name()='span' or local-name()='a') and (contains(@class,'ltx_ref ') or @class='ltx_ref')]")
}
pub fn heading_walk<'a, 'd>(d: &'a Document<'d>) -> RoNodeIterator<'a> where 'd: 'a { RoNodeIterator { walker: Document::xpath_nodes(&d.dom, HEADINGS).into_iter(), document: d } }
pub fn paragraph_walk<'a, 'd>(d: &'a Document<'d>) -> RoNodeIterator<'a> where 'd: 'a { RoNodeIterator { walker: Document::xpath_nodes(&d.dom, PARAGRAPHS).into_iter(), document: d } }
/// abstract, keywords, paragraphs, acknowledgement, captions, in this order
pub fn extended_walk<'a, 'd>(d: &'a Document<'d>) -> RoNodeIterator<'a> where 'd: 'a {
  let mut nodes = Vec::new();
  nodes.extend(Document::xpath_node(&d.dom, ABSTRACT));
  nodes.extend(Document::xpath_node(&d.dom, KEYWORDS));
  nodes.extend(Document::xpath_nodes(&d.dom, PARAGRAPHS));
  nodes.extend(Document::xpath_node(&d.dom, ACKNOWLEDGEMENT));
  nodes.extend(Document::xpath_nodes(&d.dom, CAPTIONS));
  RoNodeIterator { walker: nodes.into_iter(), document: d }
}
pub fn sentence_walk<'a, 'd>(d: &'a mut Document<'d>) -> DNMRangeIterator<'a> where 'd: 'a {
  if d.dnm.is_none() {
    if let Some(root) = d.dom.get_root_readonly() {
      d.dnm = Some(DNM::new(root, d.corpus.dnm_parameters.clone()));
    }
  }
  let ranges = d.corpus.tokenizer.sentences(d.dnm.as_ref().unwrap());
  DNMRangeIterator { walker: ranges.into_iter(), document: d }
}
pub fn document_select<'d>(d: &Document<'d>, expression: &str) -> Vec<RoNode> { Document::xpath_nodes(&d.dom, expression) }
pub fn document_select_first<'d>(d: &Document<'d>, expression: &str) -> Option<RoNode> { Document::xpath_node(&d.dom, expression) }
pub fn selector_walk<'a, 'd>(d: &'a Document<'d>, expression: &str) -> RoNodeIterator<'a> where 'd: 'a {
  RoNodeIterator { walker: Document::xpath_nodes(&d.dom, expression).into_iter(), document: d }
}
/// in document order: a node before its children
pub fn filtered(node: RoNode, filter: &dyn Fn(&RoNode) -> bool) -> Vec<RoNode> {
  let mut found = if filter(&node) { vec![node] } else { Vec::new() };
  for child in node.get_child_nodes() {
    found.extend(Document::dfs_filter_nodes(child, filter));
  }
  found
}
pub fn filter_walk<'a, 'd>(d: &'a Document<'d>, filter: &dyn Fn(&RoNode) -> bool) -> RoNodeIterator<'a> where 'd: 'a {
  RoNodeIterator { walker: Document::dfs_filter_nodes(d.dom.get_root_readonly().unwrap(), filter).into_iter(), document: d }
}
