//! Reference models for the parameter profiles.
use super::*;

pub fn defaults() -> DNMParameters {
  DNMParameters {
    special_tag_name_options: HashMap::new(),
    special_tag_class_options: HashMap::new(),
    normalize_white_spaces: true,
    wrap_tokens: false,
    normalize_unicode: false,
    stem_words_once: false,
    stem_words_full: false,
    convert_to_lowercase: false,
    support_back_mapping: true,
  }
}
pub fn runtime_defaults() -> RuntimeParseData {
  RuntimeParseData { had_whitespace: true, chars: Vec::new() }
}
fn token(t: &str) -> SpecialTagsOption { SpecialTagsOption::Normalize(t.to_string()) }
pub fn article_profile() -> DNMParameters {
  let mut names = HashMap::new();
  names.insert("math".to_string(), token("mathformula"));
  names.insert("cite".to_string(), token("CitationElement"));
  for n in ["img", "table", "head", "footer"] {
    names.insert(n.to_string(), SpecialTagsOption::Skip);
  }
  let mut classes = HashMap::new();
  classes.insert("ltx_equation".to_string(), token("\nmathformula\n"));
  classes.insert("ltx_equationgroup".to_string(), token("\nmathformula\n"));
  classes.insert("ltx_ref".to_string(), token("REF"));
  for n in ["ltx_authors", "ltx_TOC", "ltx_note_mark", "ltx_note_outer", "ltx_bibliography", "ltx_tag_figure", "ltx_tag_table"] {
    classes.insert(n.to_string(), SpecialTagsOption::Skip);
  }
  DNMParameters {
    special_tag_name_options: names,
    special_tag_class_options: classes,
    normalize_white_spaces: false,
    wrap_tokens: true,
    normalize_unicode: true,
    stem_words_once: false,
    stem_words_full: false,
    convert_to_lowercase: false,
    support_back_mapping: true,
  }
}
pub fn tag_option_text(o: &SpecialTagsOption, f: &mut fmt::Formatter) -> fmt::Result {
  f.write_str("SpecialTagsOption {")?;
  match o {
    SpecialTagsOption::Enter => f.write_str("Enter")?,
    SpecialTagsOption::Skip => f.write_str("Skip")?,
    SpecialTagsOption::Normalize(token) => f.write_str(&format!("Normalize({})", token))?,
    SpecialTagsOption::FunctionNormalize(_) => f.write_str("FunctionNormalize")?,
  }
  f.write_str("}")
}
