//! Reference models: iterators of the parallel walk.
use super::*;

pub fn next_item<'iter>(it: &mut RoNodeIterator<'iter>) -> Option<ItemDNM<'iter>> {
  let node = it.walker.next()?;
  Some(ItemDNM { dnm: DNM::new(node, DNMParameters::llamapun_normalization()), document: it.document })
}
pub fn item_sentences<'p>(item: &'p ItemDNM<'p>) -> Vec<DNMRange<'p>> { item.document.corpus.tokenizer.sentences(&item.dnm) }
pub fn item_document<'p>(item: &'p ItemDNM<'p>) -> &'p Document<'p> { item.document }
pub fn next_range<'iter>(it: &mut DNMRangeIterator<'iter>) -> Option<ItemDNMRange<'iter>> {
  let range = it.walker.next()?;
  if range.is_empty() {
    return it.next();
  }
  Some(ItemDNMRange { range, document: it.document })
}
pub fn next_range_loop<'iter>(it: &mut DNMRangeIterator<'iter>) -> Option<ItemDNMRange<'iter>> {
  while let Some(range) = it.walker.next() {
    if !range.is_empty() {
      return Some(ItemDNMRange { range, document: it.document });
    }
  }
  None
}
pub fn range_words<'s>(item: &'s mut ItemDNMRange<'s>) -> DNMRangeIterator<'s> {
  DNMRangeIterator { walker: item.document.corpus.tokenizer.words(&item.range).into_iter(), document: item.document }
}
pub fn range_words_and_marks<'s>(item: &'s mut ItemDNMRange<'s>) -> DNMRangeIterator<'s> {
  DNMRangeIterator { walker: item.document.corpus.tokenizer.words_and_punct(&item.range).into_iter(), document: item.document }
}
pub fn item_words<'s>(item: &'s mut ItemDNM<'s>) -> DNMRangeIterator<'s> {
  let ranges = if let Ok(range) = item.dnm.get_range() { item.document.corpus.tokenizer.words(&range) } else { Vec::new() };
  DNMRangeIterator { walker: ranges.into_iter(), document: item.document }
}
pub fn item_words_and_marks<'s>(item: &'s mut ItemDNM<'s>) -> DNMRangeIterator<'s> {
  let ranges = if let Ok(range) = item.dnm.get_range() { item.document.corpus.tokenizer.words_and_punct(&range) } else { Vec::new() };
  DNMRangeIterator { walker: ranges.into_iter(), document: item.document }
}
pub fn selection_sentences<'p, I: XPathFilteredIterator<'p> + ?Sized>(item: &'p I) -> DNMRangeIterator<'p> {
  DNMRangeIterator { walker: item.to_sentences().into_iter(), document: item.get_document() }
}
