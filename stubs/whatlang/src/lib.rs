//! Stand-in for whatlang 0.16: the types llamapun reads; detection looks only at the script.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Script { Latin, Cyrillic, Arabic, Greek, Mandarin, Hebrew }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Lang { Eng, Rus, Deu, Fra, Spa, Ita, Por, Ara, Ell, Cmn, Heb }
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Info { script: Script, lang: Lang, confidence: f64 }
impl Info {
  pub fn script(&self) -> Script { self.script }
  pub fn lang(&self) -> Lang { self.lang }
  pub fn confidence(&self) -> f64 { self.confidence }
  pub fn is_reliable(&self) -> bool { self.confidence > 0.9 }
}
pub fn detect(text: &str) -> Option<Info> {
  let c = text.chars().find(|c| c.is_alphabetic())?;
  if ('\u{400}'..'\u{530}').contains(&c) { Some(Info { script: Script::Cyrillic, lang: Lang::Rus, confidence: 1.0 }) }
  else { Some(Info { script: Script::Latin, lang: Lang::Eng, confidence: 1.0 }) }
}
pub fn detect_lang(text: &str) -> Option<Lang> { detect(text).map(|i| i.lang) }
pub fn detect_script(text: &str) -> Option<Script> { detect(text).map(|i| i.script) }
