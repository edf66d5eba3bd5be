//! Reference models: normal forms of words and headings.
use super::*;

/// the word, in lower case unless its case is kept, without the characters that are neither letters nor digits unless they are kept;
/// words of more than 25 bytes are refused; formulas become their lexemes (or nothing), citations and numbers a fixed token
pub fn word(range: &DNMRange, context: &mut Context, options: LexicalOptions) -> Result<String, Box<dyn Error>> {
  let plaintext = range.get_plaintext();
  let mut text = if options.discard_case { plaintext.to_lowercase() } else { plaintext.to_string() };
  if options.discard_punct {
    text = text.chars().filter(|c| c.is_alphanumeric()).collect();
  }
  if text.len() > 25 {
    return Err("exceeded max length".into());
  }
  Ok(if text.contains("mathformula") {
    if options.discard_math { String::new() } else { dnm::node::lexematize_math(range.get_node(), context) }
  } else if text.to_lowercase().contains("citationelement") {
    "citationelement".to_string()
  } else if number().is_match(&text) {
    "NUM".to_string()
  } else {
    text
  })
}
fn number() -> &'static Regex {
  lazy_static! {
    static ref NUMBER: Regex = Regex::new(r"^-?(?:\d+)(?:[a-k]|(?:\.\d+(?:[eE][+-]?\d+)?))?$").unwrap();
  }
  &NUMBER
}
pub fn options() -> LexicalOptions { LexicalOptions { discard_math: false, discard_punct: true, discard_case: true } }

/// the normal forms of the words of a heading, each followed by a blank, without numbers
pub fn heading_words(node: RoNode, tokenizer: &Tokenizer, context: &mut Context) -> Option<String> {
  let dnm = DNM::new(node, DNMParameters::llamapun_normalization());
  let whole = dnm.get_range().ok()?;
  let mut out = String::new();
  for range in tokenizer.words(&whole) {
    if !range.is_empty() {
      let text = ams_normalize_word_range(&range, context, LexicalOptions::default()).ok()?;
      if text != "NUM" && !text.is_empty() {
        out.push_str(&text);
        out.push(' ');
      }
    }
  }
  Some(out)
}

/// numerals, single letters, fixed phrases around the heading and plural endings are dropped, words stay apart, until nothing
/// changes; then the listed spellings and the listed beginnings and endings decide, in this order
pub fn heading(title: &str) -> String {
  lazy_static! {
    static ref NUMERAL: Regex = Regex::new(r"(^|\s)[xiv]*(\s|$)").unwrap();
    static ref NUM: Regex = Regex::new(r"\s*NUM\s*").unwrap();
    static ref LETTER: Regex = Regex::new(r"(^|\s)[abcdefghijklmnop](\s|$)").unwrap();
    static ref LAST_LETTER: Regex = Regex::new(r"\s[abcdefghijklmnop]$").unwrap();
    static ref LEAD: Regex = Regex::new(r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s").unwrap();
    static ref TRAIL: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();
    static ref PLURAL: Regex = Regex::new(r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(\s|$)").unwrap();
  }
  let text = NUMERAL.replace_all(title.trim(), " ");
  let text = NUM.replace_all(text.trim(), " ");
  let text = LETTER.replace_all(text.trim(), " ");
  let text = LAST_LETTER.replace_all(text.trim(), "");
  let text = LEAD.replace_all(text.trim(), "");
  let text = TRAIL.replace_all(text.trim(), "");
  let text = PLURAL.replace_all(text.trim(), "$1$2");
  if text.is_empty() {
    return String::new();
  }
  if text != title {
    return normalize_heading_title(&text);
  }
  known(&text).to_string()
}
fn known(h: &str) -> &str {
  match h {
    "lemme" | "remarque" | "corollaire" | "dokazatelstvo" => return "",
    "hypothesis" | "hypotheses" => return "conjecture",
    "implementation details" => return "implementation",
    "mathematics subject classification" | "subject headings" => return "subject",
    "bibliography" => return "references",
    "previous work" | "prior work" | "related literature" | "related research" | "related studies" | "literature review" => return "related work",
    "preliminary" => return "preliminaries",
    "analyses" => return "analysis",
    "theoretical background" => return "background",
    "exemple" => return "example",
    "exercise" => return "problem",
    _ => {},
  }
  let begins = |x: &str| h.starts_with(x);
  if begins("demonstration ") { return "demonstration"; }
  if begins("simulation result") { return "result"; }
  if begins("simulation ") { return "simulation"; }
  if begins("acknowledg") || begins("aknowledg") { return "acknowledgement"; }
  if begins("proof") { return "proof"; }
  if begins("remark ") { return "remark"; }
  if begins("experiment") { return "experiment"; }
  if begins("key word") || begins("keyword") { return "keywords"; }
  if begins("introduction") { return "introduction"; }
  if begins("related work") { return "related work"; }
  if begins("background ") { return "background"; }
  if begins("appendi") { return "appendix"; }
  if begins("notation") { return "notation"; }
  if begins("theorem") { return "theorem"; }
  if begins("lemma") { return "lemma"; }
  if begins("corollary") { return "corollary"; }
  if begins("proposition") { return "proposition"; }
  if begins("definition") { return "definition"; }
  if begins("axiom") { return "axiom"; }
  if begins("conjecture") || begins("hypothesis") { return "conjecture"; }
  if begins("fact ") { return "fact"; }
  if begins("problem ") || begins("exercise ") { return "problem"; }
  if begins("question ") { return "question"; }
  if begins("result") { return "result"; }
  if begins("msc") { return "subject"; }
  if begins("conclusion") || begins("concluding remarks") { return "conclusion"; }
  if begins("summary ") { return "summary"; }
  if begins("observation") { return "observation"; }
  if begins("model") { return "model"; }
  if begins("method") { return "methods"; }
  if begins("future") { return "future work"; }
  if begins("description") { return "description"; }
  if begins("discussion") { return "discussion"; }
  if begins("example") { return "example"; }
  if begins("properties") || begins("property ") { return "property"; }
  if begins("preliminaries ") { return "preliminaries"; }
  if begins("condition ") { return "condition"; }
  if begins("contribution ") { return "contribution"; }
  if begins("analaysis") || begins("analysis ") { return "analysis"; }
  if begins("motivation ") { return "motivation"; }
  let ends = |x: &str| h.ends_with(x);
  if ends(" demonstration") { return "demonstration"; }
  if ends(" simulation") { return "simulation"; }
  if ends(" proof") { return "proof"; }
  if ends(" remark") { return "remark"; }
  if ends(" notation") { return "notation"; }
  if ends(" experiment") { return "experiment"; }
  if ends(" theorem") { return "theorem"; }
  if ends(" lemma") { return "lemma"; }
  if ends(" corollary") { return "corollary"; }
  if ends(" proposition") { return "proposition"; }
  if ends(" definition") { return "definition"; }
  if ends(" axiom") { return "axiom"; }
  if ends(" conjecture") || ends(" hypothesis") { return "conjecture"; }
  if ends(" conclusion") { return "conclusion"; }
  if ends(" summary") { return "summary"; }
  if ends(" problem") || ends("exercise") { return "problem"; }
  if ends(" question") { return "question"; }
  if ends(" result") { return "result"; }
  if ends(" method") { return "methods"; }
  if ends(" model") { return "model"; }
  if ends(" description") { return "description"; }
  if ends(" discussion") { return "discussion"; }
  if ends(" example") { return "example"; }
  if ends(" property") || ends(" properties") { return "property"; }
  if ends(" preliminaries") { return "preliminaries"; }
  if ends(" condition") { return "condition"; }
  if ends(" contribution") { return "contribution"; }
  if ends(" analysis") { return "analysis"; }
  if ends(" motivation") { return "motivation"; }
  h
}

/// another script, or another language that is detected with a confidence above 0.93; placeholders are left out
pub fn foreign(dnm: &DNM) -> bool {
  let text = dnm.plaintext.replace("mathformula", " ").replace("CitationElement", " ").replace("REF", " ");
  match detect(text.trim()) {
    None => false,
    Some(found) => found.script() != Script::Latin || (found.lang() != Lang::Eng && found.confidence() > 0.93),
  }
}
