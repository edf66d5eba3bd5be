"""The narrative model: text, offsets, back map, node map, ranges, canonical form."""
from registry import prop
from rules import *

D = 'dnm::DNM::'
def names(*ns): return lambda b: b.name in ns

@prop('P13')
def offsets(c):
    c.model('DNM::text_node_create', 'text', rule='text of a node: content, unicode, stemming, case and white space normalised in this order, one back map entry per character')
    c.model('DNM::normalize_unicode', 'ascii_text', need=False, args=[Sym(x) for x in ('self', 'string', 'offsets')], assume=[(mk_eq(mk_len(T('chars', Sym('string'))), mk_len(Sym('offsets'))), TRUE)], rule='every replacement character keeps the offset of the character it replaces')
    c.model('DNM::stem_words', 'stemmed', rule='stemming excludes back mapping; full stemming wins')
    c.model('DNM::new', 'whole', opaque=names('recurse_node_create'), modifies={('recurse_node_create', 0): ['runtime', 'back_map', 'node_map']}, rule='byte offset of every character, then the length of the text')

@prop('P14')
def treatments(c):
    c.model_any('DNM::intermediate_node_create', [['element_listed', 'element_listed_first', 'element']], opaque=names('recurse_node_create'), rule='the first class rule, else the name rule, decides: enter, replace, skip; the range is recorded on every way out')
    c.model('DNM::recurse_node_create', 'any_node', opaque=names('text_node_create', 'intermediate_node_create'), rule='text nodes contribute text, all others are entered')

@prop('P15')
def white_space(c):
    c.model('DNM::normalize_whitespace', 'merged_white_space', rule='a run of white space, also across nodes, becomes one blank')

@prop('P16')
def node_ranges(c):
    c.model('DNM::get_range_of_node', 'node_range', view=no_message, rule='the range recorded for the node, an error for a node never visited')
    c.model('DNM::get_range', 'full_range', view=no_message, rule='the full range is that of the root')
    c.model_any('DNM::from_str', ['from_text'] + ['from_text_' + x for x in ('text_attr', 'filled', 'filled_text', 'created', 'upwards', 'upwards_created', 'created_upwards', 'attr_first')], opaque=lambda b: b.path.endswith('dnm::DNM::new'), rule='a text is wrapped as one paragraph')
    c.model('DNM::from_ams_paragraph_str', 'from_paragraph', opaque=names('from_str', 'rebuild_normalized_text'), rule='a tokenised paragraph is rebuilt, then wrapped')
    c.model('<dnm::DNM as std::default::Default>::default', 'empty', rule='the default model is empty')

R = 'dnm::range::DNMRange::'
def R_(n): return 'DNMRange::' + n

@prop('P17')
def ranges(c):
    c.model(R_('get_plaintext'), 'range_text', rule='the text from the byte offset of the first character to that of the end')
    c.model(R_('get_plaintext_truncated'), 'range_text_truncated', opaque=names('get_plaintext'), rule='the text without trailing white space')
    c.model(R_('get_node'), 'first_node', rule='the node of the first character')
    c.model('<dnm::range::DNMRange<\'dnmrange> as std::clone::Clone>::clone', 'same_range', rule='a copy has the same bounds')
    c.model_any(R_('trim'), [['trimmed', 'trimmed_or_equal']], opaque=names('get_plaintext'), rule='white space characters are taken off both ends, one position each')
    c.model(R_('get_subrange'), 'subrange', rule='offsets are relative to the start')
    c.model(R_('get_subrange_from_byte_offsets'), 'byte_subrange', opaque=names('byte_offset_bisection'), need=False, rule='the characters of the first and the last byte')
    c.model(R_('byte_offset_bisection'), 'bisection', args=[Sym(x) for x in ('self', 'target', 'lower', 'upper')], assume=[(T('le0', sub(Sym('lower'), Sym('upper'))), TRUE)], opaque=names('byte_offset_bisection'), need=False, rule='the last character starting at or before the byte')
    c.model(R_('is_empty'), 'empty_range', rule='no character between start and end')

@prop('P18')
def pointers(c):
    c.model(R_('serialize'), 'pointer', opaque=names('create_arange', 'serialize_offset'), rule='start and end of the pointer are those of the first character and behind the last')
    c.model(R_('create_arange'), 'arange', rule='the form the reader takes apart')
    c.model_any(R_('serialize_offset'), [['pointer_part', 'pointer_part_str']], opaque=names('serialize_node'), rule='one-based character number within the node')
    c.model(R_('serialize_node'), 'node_path', opaque=names('serialize_node', 'get_next_sibling'), rule='by id, else by number among the siblings of its kind')
    c.model(R_('deserialize'), 'read_range', opaque=names('xpointer_to_offset'), rule='both parts are read')
    c.model(R_('xpointer_to_offset'), 'read_offset', opaque=names('get_position_of_lowest_parent', 'get_range_of_node'), need=False, rule='position of the character in the text of the node, else of the nearest recorded ancestor')
    c.model('range::get_position_of_lowest_parent', 'lowest_parent', opaque=names('get_position_of_lowest_parent', 'get_range_of_node'), need=False, rule='start of the nearest recorded ancestor')
    c.model('range::get_next_sibling', 'next_node', opaque=names('get_next_sibling'), need=False, rule='the next node in document order outside the subtree')
    c.model('range::get_node_number', 'number_among', need=False, rule='one more than the siblings of the kind before it')

@prop('P19')
def canonical_form(c):
    c.model('node_c14n_basic', 'canonical_text', opaque=names('canonical_internal'), rule='the canonical form of a node, without line breaks')
    c.model('to_c14n_basic', 'canonical_document', opaque=names('node_c14n_basic'), rule='the canonical form of the document is that of its root')
    c.model('to_hash_basic', 'hashed_document', opaque=names('node_hash_basic'), rule='the hash of the document is that of its root')
    c.model_any('node_hash_basic', [['hashed', 'hashed_text_first', 'hashed_reset_late', 'hashed_locally']], opaque=names('node_c14n_basic'), rule='a fresh digest of exactly the canonical text')
    c.model_any('canonical_internal', [['canonical', 'canonical_loop']], opaque=names('canonical_internal', 'get_range_of_node', 'get_plaintext'), need=False, rule='names, sorted classes and text, without annotations and blanks')

@prop('P22')
def normalized_text(c):
    c.model('make_ascii_titlecase', 'titlecase', rule='an ASCII letter in front becomes upper case')
    c.model('rebuild_normalized_text', 'normalized', opaque=names('make_ascii_titlecase'), rule='one sentence per line, lexemes replaced')
