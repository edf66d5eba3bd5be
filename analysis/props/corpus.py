"""Corpora, documents and the iterators over them."""
from registry import prop
from rules import *

def names(*ns): return lambda b: b.name in ns
HELP = ('new', 'sentences', 'words', 'words_and_punct', 'clone', 'get_range', 'is_empty', 'llamapun_normalization', 'default', 'get_plaintext')
D = 'data::Document::'; P = 'parallel_data::document::Document::'

@prop('P23')
def walk(c):
    c.model("<data::DocumentIterator as std::iter::Iterator>::next", 'next_document', opaque=names('new'), rule='every selected document that can be read, one after the other')
    c.model(D + 'new', 'data::__spec::read_document', rule='XHTML by name, else HTML; the path is kept')
    c.model(P + 'new', 'document::__spec::read_document', rule='XHTML by name, else HTML; the path is kept')
    c.model('data::Corpus::new', 'data::__spec::corpus_at', opaque=names('default'), rule='the default corpus at this path')
    c.model('corpus::Corpus::new', 'corpus::__spec::corpus_at', opaque=names('default'), rule='the default corpus at this path')
    c.model('<data::Corpus as std::default::Default>::default', 'data::__spec::default_corpus', opaque=names('default', 'llamapun_normalization'), rule='the settings of a corpus')
    c.model('<parallel_data::corpus::Corpus as std::default::Default>::default', 'corpus::__spec::default_corpus', opaque=names('default', 'llamapun_normalization'), rule='the settings of a corpus')
    c.model('data::Corpus::iter', 'walk', rule='the walk starts at the path of the corpus')
    c.model('data::Corpus::load_doc', 'load', opaque=names('new'), rule='the document at the path')

@prop('P24')
def merge(c):
    c.model('corpus::Corpus::catalog_with_parallel_walk', 'catalog', opaque=names('new'), rule='counts are added key by key over all documents that can be read')
    c.model('corpus::Corpus::catalogs_with_parallel_walk', 'catalogs', opaque=names('new'), rule='counts are added key by key over all documents that can be read')

@prop('P25')
def selections(c):
    X = names('xpath_nodes', 'xpath_node')
    c.model(P + 'xpath_nodes', 'document::__spec::select', rule='the nodes found, none when the expression fails')
    c.model(P + 'xpath_node', 'select_first', rule='the first node found')
    for f, r in (('get_heading_nodes', 'headings'), ('get_paragraph_nodes', 'paragraphs'), ('get_math_nodes', 'formulas'), ('get_ref_nodes', 'references'), ('heading_iter', 'heading_walk'), ('paragraph_iter', 'paragraph_walk'),
                 ('extended_paragraph_iter', 'extended_walk'), ('get_xpath_nodes', 'document_select'), ('get_xpath_node', 'document_select_first'), ('xpath_selector_iter', 'selector_walk')):
        c.model(P + f, 'document::__spec::' + r, opaque=X, rule='the expression selects the nodes of its kind without errors')
    c.model(P + 'dfs_filter_nodes', 'filtered', opaque=names('dfs_filter_nodes'), need=False, rule='a node before its children, in order')
    c.model(P + 'filter_iter', 'filter_walk', opaque=names('dfs_filter_nodes'), rule='from the root')
    for f, r in (('paragraph_nodes', 'paragraphs'), ('math_nodes', 'formulas'), ('ref_nodes', 'references')):
        c.model(D + f, 'data::__spec::' + r, need=f == 'paragraph_nodes', rule='the expression selects the nodes of its kind without errors')
    c.model(D + 'get_math_nodes', 'document_formulas', opaque=names('math_nodes'), rule='those of the document')
    c.model(D + 'get_ref_nodes', 'document_references', opaque=names('ref_nodes'), rule='those of the document')
    c.model(D + 'paragraph_iter', 'document_paragraphs', opaque=names('paragraph_nodes'), rule='the paragraphs in document order')

@prop('P26')
def iterators(c):
    H = names(*HELP, 'next', 'get_subrange_from_byte_offsets', 'senna_parse')
    c.model(D + 'sentence_iter', 'document_sentences', opaque=H, rule='the model is made once with the parameters of the corpus')
    c.model(P + 'sentence_iter', 'sentence_walk', opaque=H, rule='the model is made once with the parameters of the corpus')
    N = 'as std::iter::Iterator>::next'
    c.model("<data::ParagraphIterator " + N, 'next_paragraph', opaque=H, rule='one paragraph per node')
    c.model("data::Paragraph::iter", 'paragraph_sentences', opaque=H, rule='the sentences of the paragraph')
    c.model_any("<data::SentenceIterator " + N, [['next_sentence', 'next_sentence_loop']], opaque=H, rule='empty ranges are passed over, the others come in order')
    c.model("data::Sentence::simple_iter", 'simple_words', opaque=H, rule='the words of the sentence')
    c.model("data::Sentence::senna_iter", 'senna_words', opaque=H, rule='parsed once, from the first word')
    c.model("data::Sentence::senna_parse", 'analyse', opaque=H, rule='the text of the sentence is parsed under the options of the corpus')
    c.model("<data::SimpleWordIterator " + N, 'next_simple_word', opaque=H, rule='one word per range')
    c.model("<data::SennaWordIterator " + N, 'next_senna_word', opaque=H, rule='every word of the parse, placed by its bytes')
    c.model("<parallel_data::RoNodeIterator " + N, 'next_item', opaque=H, rule='one item per node')
    c.model_any("<parallel_data::DNMRangeIterator " + N, [['next_range', 'next_range_loop']], opaque=H, rule='empty ranges are passed over, the others come in order')
    c.model("<parallel_data::ItemDNM as parallel_data::XPathFilteredIterator>::to_sentences", 'item_sentences', opaque=H, rule='the sentences of the item')
    c.model("<parallel_data::ItemDNM as parallel_data::XPathFilteredIterator>::get_document", 'item_document', rule='its document')
    c.model("parallel_data::XPathFilteredIterator::iter", 'selection_sentences', opaque=H, rule='the sentences of the selection, with its document')
    c.model("ItemDNMRange::word_iter", 'range_words', opaque=H, rule='words of the range')
    c.model("ItemDNMRange::word_and_punct_iter", 'range_words_and_marks', opaque=H, rule='words and marks of the range')
    c.model("ItemDNM::word_iter", 'item_words', opaque=H, rule='words of the item, none without a range')
    c.model("ItemDNM::word_and_punct_iter", 'item_words_and_marks', opaque=H, rule='words and marks of the item')
