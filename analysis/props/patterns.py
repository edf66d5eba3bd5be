"""Patterns: how rules are read, and what a pattern matches."""
from registry import prop
from rules import *
import engine as E

def names(*ns): return lambda b: b.name in ns

UTILS = ('require_node_property', 'get_only_child', 'get_non_text_children', 'assert_no_child', 'get_simple_node_content', 'check_found_property_already')
LOADS = ('load_from_node', 'from_str', 'from_node')
GETS = ('get_math_rule', 'get_mtext_rule', 'get_pos_rule', 'get_word_rule', 'get_sequence_rule', 'get_rule_position')
ADDS = ('add_math_rule', 'add_mtext_rule', 'add_pos_rule', 'add_word_rule', 'add_sequence_rule', 'verify')
R = 'patterns::rules::'

@prop('P31')
def loading(c):
    O = names(*UTILS, *LOADS, *GETS)
    def m(fn, ref, op=O, **k): c.model(fn, R + '__spec::' + ref, opaque=op, view=no_message, **k)
    m('rules::MathChildrenMatchType::from_str', 'children_choice', names(), rule='the four listed names, anything else is an error')
    m('rules::MathDescendantMatchType::from_str', 'descendant_choice', names(), rule='the three listed names, anything else is an error')
    m('rules::PhraseMatchType::from_str', 'phrase_choice', names(), rule='the two listed names, anything else is an error')
    m('rules::SequenceContainment::from_node', 'containment', names(), rule='the two listed names; any when none is given')
    m('rules::PatternMarker::load_from_node', 'marker', rule='a name, and the tags between commas')
    m('rules::MetaDescription::load_from_node', 'meta', rule='at most one description and nothing else')
    for t, ref in (('Math', 'math'), ('MText', 'mtext'), ('Pos', 'pos'), ('Word', 'word'), ('Sequence', 'sequence')):
        m('rules::%sPattern::load_from_node' % t, ref, rule='each kind of node has its pattern, parts in document order; anything else is an error')
        m('rules::%sRule::load_from_node' % t, '%s_rule' % ref, rule='the pattern and the description of the rule')
        g = 'sequence' if t == 'Sequence' else ref
        m('rules::PCtx::get_%s_rule' % g, 'position_of_%s' % g, names('get_rule_position'), rule='positions in the table of the kind')
        m('rules::PCtx::add_%s_rule' % g, 'define_%s' % g, rule='a rule is stored at the position of its name; a second one is an error')
    m('rules::load_rule', 'rule', rule='exactly one pattern and at most one description')
    m('rules::get_rule_position', 'position', names(), rule='one position per name, the next free one for a new name')
    m('rules::PCtx::new', 'empty', names(), rule='loading begins without rules')
    m('rules::PCtx::verify', 'complete', names(), rule='every name that is used is defined')
    m('rules::PatternFile::load', 'file', names(*UTILS, *LOADS, *GETS, *ADDS, 'new'), rule='the rules of the file, all defined, or an error')

RESULT = {'match_seq': 'InternalSeqMatch', 'match_word': 'InternalWordMatch', 'match_math': 'InternalMathMatch'}
def nothing(c, fn):
    """the value of a failed match: it has no parts"""
    b = c.fn('matching::' + fn, need=False)
    if b is None: return None
    path = c.prog.types[b.locals[0][0]].get('path') or 'patterns::matching::' + RESULT[fn]
    a = c.prog.adt_by_path.get(path)
    if a is None or len(a['variants']) != 1: return None
    fs = [f[0] for f in a['variants'][0]['fields']]
    if 'matched' not in fs or set(fs) - {'matched', 'end', '_matches'}: return None
    return T('agg', path, '', *[{'matched': FALSE, 'end': Int(0), '_matches': EMPTY_L}[f] for f in fs])

@prop('P32')
def matching(c):
    M = ('match_seq', 'match_word', 'match_math', 'match_mtext', 'match_pos', 'get_phrase_matches', 'from_psg', 'get_marker_list',
         'fast_get_non_text_children', 'get_simple_node_content', 'get_subrange_from_byte_offsets', 'get_node')
    none = {fn: nothing(c, fn) for fn in RESULT}
    split = {fn: (lambda r, z=z: (E.get_field(r, 'matched'), r, z)) for fn, z in none.items() if z is not None}
    for fn in split:
        b = c.fn('matching::' + fn)
        rule = 'a failed match has no parts'
        rows, e, why = c.run(b, None, names(*M), resplit=split)
        if rows is None: split = {}; c.open(fn + '_failed', rule, c.where(b), why); break
        rest = [p for p in rows if p.ret is not none[fn] and p.st.copy().truth(E.get_field(p.ret, 'matched')) is not True]
        if rest: split = {}; c.open(fn + '_failed', rule, c.where(b), 'not settled for %r, not %r' % (rest[0].ret.args[:2], none[fn].args[:2])); break
        c.ok(fn + '_failed', rule, c.where(b), '%d paths' % len(rows))
    def m(fn, ref, **k): c.model(fn, 'patterns::matching::__spec::' + ref, opaque=names(*M), resplit=split, **k)
    m('matching::Match::get_marker_list', 'markers', rule='the marker, then those of the parts in order')
    m('matching::PhraseTree::from_psg', 'tree', rule='first and last word of every phrase, phrases in order')
    m('matching::get_phrase_matches', 'phrase_ends', rule='the ends of the phrases of the kind that start at the word, innermost first')
    m('matching::match_sentence', 'sentence_matches', view=no_message, rule='the matches at every word, in order; errors without rule or parse')
    m('matching::match_seq', 'sequence', rule='what each kind of sequence pattern matches, and where the match ends')
    m('matching::match_word', 'word', rule='what each kind of word pattern matches')
    m('matching::match_math', 'math', rule='what each kind of formula pattern matches')
    m('matching::match_mtext', 'mtext', rule='what each kind of symbol pattern matches')
    m('matching::match_pos', 'tag', rule='what each kind of tag pattern matches')
