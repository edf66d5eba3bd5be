"""Kinds of statements, normal forms of words and headings, and the outputs built from them."""
from registry import prop
from rules import *
import os

def names(*ns): return lambda b: b.name in ns
def table():
    d = {}
    for l in open(os.path.join(os.path.dirname(__file__), '..', '..', 'spec', 'environments.txt')):
        if l[0] != '#' and ':' in l:
            k, v = l.split(':')
            for x in v.split(): d[x] = k
    return d

@prop('P27')
def environments(c):
    b = c.fn('ams::normalize_env'); w = c.where(b)
    want = table(); rows, e, why = c.run(b)
    rule = 'every listed name has its kind, any other name is Other'
    if rows is None: c.open('normalize_env', rule, w, why)
    else:
        got = {}; rest = []
        for r in rows:
            fs = [(k, v) for k, v in r.st.facts.items() if k.op != 'unsigned']
            kind = r.ret.args[1] if r.ret.op == 'agg' and len(r.ret.args) == 2 else None
            if len(fs) == 1 and fs[0][0].op == 'sym' and getattr(fs[0][1], 'op', '') == 'str': got.setdefault(fs[0][1].args[0], kind)
            else: rest.append((r, kind))
        for x in sorted(want):
            if x in got: k = got[x]
            else:
                # decided on the path that this very name takes
                rs, _, y = c.run(b, args=[Str(x)])
                k = rs[0].ret.args[1] if rs and len(rs) == 1 and rs[0].ret.op == 'agg' and len(rs[0].ret.args) == 2 else None
            if k is None: c.open('name ' + x, rule, w, 'its kind is not decided')
            elif k != want[x]: c.bad('name ' + x, rule, w, 'the environment `%s` is %s instead of %s' % (x, k, want[x]))
        if c.obs and not any(o['id'].endswith('name ' + x) for x in want for o in c.obs if o['status'] != 'ok'): c.ok('listed names', rule, w, '%d names' % len(want))
        bad = [x for x in got if x not in want and got[x] != 'Other']
        if bad: c.bad('unlisted names', rule, w, 'the environment `%s` is %s although it is not listed' % (bad[0], got[bad[0]]))
        elif not rest: c.bad('unlisted names', rule, w, 'no path handles other names')
        elif all(k == 'Other' for _, k in rest): c.ok('unlisted names', rule, w, '%d paths' % len(rest))
        else:
            r, k = [x for x in rest if x[1] != 'Other'][0]
            plain = not r.st.facts or all(f.op in ('neq', 'sym', 'unsigned') for f in r.st.facts)
            if not plain:
                # a name that takes this very path
                for x in sorted(set(v.args[0] for r, _ in rest for v in r.st.facts.values() if v.op == 'str'))[:12]:
                    for y in (x.upper(), x.capitalize(), x + ' ', ' ' + x, x + 's', x + '-', x + '1', '_' + x):
                        if y in want: continue
                        rs, _, _ = c.run(b, args=[Str(y)])
                        if rs and len(rs) == 1 and rs[0].ret.op == 'agg' and len(rs[0].ret.args) == 2 and rs[0].ret.args[1] != 'Other': plain, k = True, '%s, for example `%s`,' % (rs[0].ret.args[1], y); break
                    if plain: break
            (c.bad if plain else c.open)('unlisted names', rule, w, 'a name that is not listed is %s when %s' % (k, facts_str(r.st.facts)[:300]))
    c.model('ams::class_to_env', 'declared', opaque=names('normalize_env'), rule='the declared name decides, unnamed statements are theorems, proofs have a class of their own')
    c.model('<ams::AmsEnv as std::fmt::Display>::fmt', 'env_name', rule='the name of the kind')
    c.model('<ams::StructuralEnv as std::fmt::Display>::fmt', 'heading_name', rule='the name of the kind')
    c.model('<ams::StructuralEnv as std::convert::From<&str>>::from', 'kind_of_heading', opaque=names('normalize_heading_title'), rule='the normal form of the lower-case heading decides')
    c.model('ams::has_markup_xmldoc', 'marked_dom', rule='some statement is marked up')
    c.model('ams::has_markup', 'ams::__spec::marked', opaque=names('has_markup_xmldoc'), need=False, rule='some statement is marked up')

@prop('P28')
def headings(c):
    c.model('data_helpers::normalize_heading_title', 'data_helpers::__spec::heading', opaque=names('normalize_heading_title'), rule='one normal form per heading, words stay apart')
    c.model('data_helpers::heading_from_node_aux', 'heading_words', opaque=names('new', 'llamapun_normalization', 'get_range', 'words', 'is_empty', 'ams_normalize_word_range', 'default'), need=False, rule='the normal forms of the words, without numbers')

@prop('P29')
def word_forms(c):
    c.model('data_helpers::ams_normalize_word_range', 'data_helpers::__spec::word', opaque=names('get_plaintext', 'lexematize_math', 'get_node'), view=no_message, rule='the normal form of a word')
    c.model('<util::data_helpers::LexicalOptions as std::default::Default>::default', 'data_helpers::__spec::options', rule='formulas are kept, marks and case are not')
    c.model('data_helpers::invalid_for_english_latin', 'foreign', rule='another script, or surely another language')
    H = ('new', 'default', 'paragraph_iter', 'iter', 'simple_iter', 'next', 'is_empty', 'ams_normalize_word_range')
    c.model('path_helpers::path_to_words', 'document_words', opaque=names(*H), rule='one line per sentence; paragraphs with an overlong word are left out')
    c.model('extern_use::word_tokenize_for_vec2doc', 'words_for_c', opaque=names('path_to_words'), rule='the words of the document at the path')

@prop('P30')
def token_model(c):
    H = ('new', 'extended_paragraph_iter', 'paragraph_iter', 'word_and_punct_iter', 'word_iter', 'next', 'is_empty', 'get_plaintext', 'lexematize_math', 'get_node')
    c.model('token_model::extract', 'model_file', opaque=names(*H), rule='one line per complete paragraph; every kind of token is counted')
