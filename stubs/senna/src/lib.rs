//! Stand-in for rust-senna (git-only upstream): its types, with a whitespace tokenizer in place of the C library.
pub mod pos {
  use std::collections::HashMap;
  #[allow(non_camel_case_types)]
  #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
  pub enum POS { NOT_SET, NN, NNS, NNP, NNPS, VB, VBD, VBG, VBN, VBP, VBZ, DT, IN, JJ, JJR, JJS, CC, CD, RB, PRP, TO, MD, Other }
  impl POS {
    pub fn generate_str_to_pos_map() -> HashMap<&'static str, POS> {
      use POS::*;
      [("NN", NN), ("NNS", NNS), ("NNP", NNP), ("NNPS", NNPS), ("VB", VB), ("VBD", VBD), ("VBG", VBG), ("VBN", VBN), ("VBP", VBP), ("VBZ", VBZ), ("DT", DT), ("IN", IN), ("JJ", JJ),
       ("JJR", JJR), ("JJS", JJS), ("CC", CC), ("CD", CD), ("RB", RB), ("PRP", PRP), ("TO", TO), ("MD", MD)].into_iter().collect()
    }
    pub fn to_str(&self) -> &'static str { "POS" }
  }
}
pub mod phrase {
  use std::collections::HashMap;
  #[allow(non_camel_case_types)]
  #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
  pub enum Phrase { NOT_SET, NP, VP, PP, S, SBAR, ADJP, ADVP }
  impl Phrase {
    pub fn generate_str_to_phrase_map() -> HashMap<&'static str, Phrase> {
      use Phrase::*;
      [("NP", NP), ("VP", VP), ("PP", PP), ("S", S), ("SBAR", SBAR), ("ADJP", ADJP), ("ADVP", ADVP)].into_iter().collect()
    }
    pub fn to_str(&self) -> &'static str { "Phrase" }
  }
}
pub mod sennapath { pub static SENNA_PATH: &str = "/nonexistent/senna/"; }
pub mod sentence {
  use crate::phrase::Phrase;
  use crate::pos::POS;
  /// Offsets are byte offsets into the parsed string.
  #[derive(Clone)]
  pub struct Word<'t> { offset_start: usize, offset_end: usize, string: &'t str, index: usize, pos: POS }
  impl<'t> Word<'t> {
    pub fn new(offset_start: usize, offset_end: usize, string: &'t str, index: usize, pos: POS) -> Word<'t> { Word { offset_start, offset_end, string, index, pos } }
    pub fn get_offset_start(&self) -> usize { self.offset_start }
    pub fn get_offset_end(&self) -> usize { self.offset_end }
    pub fn get_string(&self) -> &str { self.string }
    pub fn get_index(&self) -> usize { self.index }
    pub fn get_pos(&self) -> POS { self.pos }
  }
  #[derive(Clone)]
  pub struct PSGParent { label: Phrase, children: Vec<PSGNode> }
  impl PSGParent {
    pub fn new(label: Phrase, children: Vec<PSGNode>) -> Self { PSGParent { label, children } }
    pub fn get_children(&self) -> &Vec<PSGNode> { &self.children }
    pub fn get_label(&self) -> Phrase { self.label }
  }
  #[derive(Clone)]
  pub enum PSGNode { Parent(Box<PSGParent>), Leaf(usize) }
  pub struct Sentence<'t> { string: &'t str, words: Vec<Word<'t>>, psg: Option<PSGNode> }
  impl<'t> Sentence<'t> {
    pub fn new(string: &'t str, words: Vec<Word<'t>>, psg: Option<PSGNode>) -> Self { Sentence { string, words, psg } }
    pub fn get_words(&self) -> &Vec<Word<'t>> { &self.words }
    pub fn get_string(&self) -> &'t str { self.string }
    pub fn get_psgroot(&self) -> Option<&PSGNode> { self.psg.as_ref() }
  }
}
pub mod senna {
  use crate::phrase::Phrase;
  use crate::pos::POS;
  use crate::sentence::*;
  pub struct Senna { _path: String }
  #[derive(Debug, Clone, Copy)]
  pub struct SennaParseOptions { pub tokens: bool, pub pos: bool, pub chk: bool, pub ner: bool, pub srl: bool, pub psg: bool }
  impl Default for SennaParseOptions { fn default() -> Self { SennaParseOptions { tokens: true, pos: true, chk: false, ner: false, srl: false, psg: true } } }
  impl Senna {
    pub fn new(path: String) -> Senna { Senna { _path: path } }
    pub fn parse<'t>(&mut self, sentence: &'t str, _options: SennaParseOptions) -> Sentence<'t> {
      let mut words = Vec::new();
      let mut at = 0;
      for piece in sentence.split(' ') {
        if !piece.is_empty() { words.push(Word::new(at, at + piece.len(), &sentence[at..at + piece.len()], words.len(), POS::NN)); }
        at += piece.len() + 1;
      }
      let leaves = (0..words.len()).map(PSGNode::Leaf).collect();
      let psg = Some(PSGNode::Parent(Box::new(PSGParent::new(Phrase::NP, leaves))));
      Sentence::new(sentence, words, psg)
    }
  }
}
