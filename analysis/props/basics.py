"""The small modules: stop words, strict readers of pattern elements, formula lexemes, parameter profiles, plots, test resources."""
import os
from registry import prop
from rules import *

@prop('P05')
def stopwords(c):
    b = c.fn('stopwords::load')
    rows, e, why = c.run(b)
    w = c.where(b); rule = 'the stop-word set is the fixed vocabulary'
    if rows is None or len(rows) != 1: return c.open('vocabulary', rule, w, why or 'more than one way through')
    r = rows[0].ret
    words = set()
    def collect(t):
        """the constant elements of a set expression; False when there is something else"""
        if t.op == 'setof': return collect(t.args[0])
        if t.op == 'seq' and t.args[0] == 'l': return all([collect(p) for p in t.args[1:]])
        if t.op == 'one' and t.args[0].op == 'str': words.add(t.args[0].args[0]); return True
        if t.op == 'agg' and t.args[0] == 'array': return all([collect(One(x)) for x in t.args[2:]])
        if t.op == 'store': 
            if t.args[1].op == 'str': words.add(t.args[1].args[0]); return collect(t.args[0])
            return False
        if t.op in ('map0', 'set0'): return True
        return False
    full = collect(r)
    spec = set(open(os.path.join(os.path.dirname(__file__), '..', '..', 'spec', 'stopwords.txt')).read().split('\n')) - {''}
    c.sites += len(words)
    odd = sorted(x for x in words if x != x.lower() or x != x.strip() or not x or len(x.split()) != 1)
    c.check('entries are single lower-case words', rule, w, not odd, 'odd entries: %s' % odd[:10])
    extra = sorted(words - spec - set(odd))
    if full or words:
        c.check('no word is added', rule, w, not extra, 'not stop words: %s' % extra[:20])
    if full: c.check('no word is missing', rule, w, spec <= words, 'missing: %s' % sorted(spec - words)[:20])
    else: c.open('no word is missing', rule, w, 'the set is not a constant: ' + show(r)[:200])

@prop('P06')
def simple_content(c):
    U = 'patterns::utils::'
    c.model(U + 'get_simple_node_content', 'simple_content', view=no_message, rule='text content of an element: nothing, or exactly one text child')
    c.model(U + 'require_node_property', 'required_property', view=no_message, rule='a required attribute that is missing is an error')
    c.model(U + 'check_found_property_already', 'not_found_already', view=no_message, rule='a property given twice is an error')

@prop('P07')
def child_elements(c):
    U = 'patterns::utils::'
    c.model(U + 'is_comment_node', 'is_comment_node', rule='comments are recognised by their node type')
    c.model(U + 'get_non_text_children', 'strict_children', view=no_message, rule='child elements in document order, blank text and comments skipped, other text an error')
    c.model(U + 'fast_get_non_text_children', 'lenient_children', rule='child elements in document order, text and comments skipped')
    c.model(U + 'get_only_child', 'only_child', view=no_message, rule='exactly one child element')
    c.model(U + 'assert_no_child', 'no_child', view=no_message, rule='no child element')

@prop('P08')
def lexemes(c):
    c.model_any('lexematize_math', [['lexemes', 'lexemes_no_newline']], rule='lexemes of all annotations in document order, separated by single spaces, or the fallback token', mem=False)
    b = c.fn('<dnm::node::LEXEME_END_MARKER as std::ops::Deref>::deref::__static_ref_initialize')
    rows, e, why = c.run(b)
    want = App('Regex', Str(r'((?:OPFUNCTION|OPERATOR|OPEN|CLOSE|UNKNOWN|RELOP|ADDOP|MULOP|ARROW|BIGOP|BINOP|ID|OVERACCENT|UNDERACCENT):end)'))
    c.check('end markers', 'the end marker pattern knows every lexeme role', c.where(b), rows and len(rows) == 1 and roles(rows[0].ret) == roles(want), 'is %s' % (rows and show(rows[0].ret)))
def roles(t):
    """the alternatives of the end marker pattern"""
    if t.op != 'app' or t.args[0] != 'Regex' or t.args[1].op != 'str': return None
    m = re.fullmatch(r'\(\((?:\?:)?([A-Z|]+)\)(:end)\)|\(\(\?:([A-Z|]+)\):end\)', t.args[1].args[0])
    if not m: return t.args[1].args[0]
    return frozenset((m.group(1) or m.group(3)).split('|'))

@prop('P09')
def profiles(c):
    c.model('DNMParameters::llamapun_normalization', 'article_profile', rule='the article profile replaces or skips exactly the listed names and classes')
    c.model('<dnm::parameters::DNMParameters as std::default::Default>::default', 'defaults', rule='defaults: nothing special, white space merged, back mapping on')
    c.model('<dnm::parameters::RuntimeParseData as std::default::Default>::default', 'runtime_defaults', rule='leading white space is skipped')

@prop('P10')
def plot(c):
    c.model('plot_simple', 'plot', rule='one point per entry: its key against the base-2 logarithm of its count', mem=False)

@prop('P11')
def resources(c):
    b = c.fn('<util::test::RESOURCE_DOCUMENTS as std::ops::Deref>::deref::__static_ref_initialize')
    c.model(b, 'resources', oid='RESOURCE_DOCUMENTS', rule='the names of all (x)html files below tests/resources')

@prop('P12')
def diagnostics(c):
    c.model('<dnm::parameters::SpecialTagsOption as std::fmt::Debug>::fmt', 'tag_option_text', rule='the text names the kind of treatment and shows the replacement')
    b = c.fn('DNMParameters::check'); w = c.where(b); self = Sym('self')
    rows, e, why = c.run(b, [self], tag='messages')
    if rows is None: return c.open('warnings', 'warnings name contradictory options', w, why)
    once, full, lower, back = (T('fld', self, n) for n in ('stem_words_once', 'stem_words_full', 'convert_to_lowercase', 'support_back_mapping'))
    import itertools
    for vals in itertools.product((True, False), repeat=4):
        f = dict(zip((once, full, lower, back), vals))
        names = [x.args[1] for x, v in f.items() if v]
        oid = 'warnings with ' + (', '.join(names) or 'none of the options'); rule = 'a warning names the options exactly when they contradict each other'
        want = set()
        stem = f[once] or f[full]
        if f[once] and f[full]: want.add('stem_words_once+stem_words_full')
        if stem and f[lower]: want.add('convert_to_lowercase')
        if stem and f[back]: want.add('support_back_mapping')
        hits = []; opened = None
        for r in rows:
            st = r.st.copy()
            if not assume_all(st, [(k, bool(v)) for k, v in f.items()]) or not consistent(st): continue
            got = set()
            for ev in r.trace:
                if ev[0] != 'call' or ev[1] != 'message': opened = 'effect %s' % (ev[1],); continue
                txt = ''.join(p.args[0] for x in subterms(ev[2][0]) for p in [x] if x.op == 'str')
                if not txt: opened = 'a message without fixed text'
                k = 'stem_words_once+stem_words_full' if 'stem_words_once' in txt and 'stem_words_full' in txt else 'convert_to_lowercase' if 'convert_to_lowercase' in txt else 'support_back_mapping' if 'support_back_mapping' in txt else None
                if k is None: opened = 'a message about something else: ' + txt[:100]
                elif k in got: opened = 'a message given twice'
                got.add(k)
            hits.append(got - {None})
        c.sites += len(hits)
        if opened: c.open(oid, rule, w, opened)
        else: c.check(oid, rule, w, hits and all(h == want for h in hits), 'warns about %s, must warn about %s' % (sorted(hits[0]) if hits else 'nothing (no way through)', sorted(want)))
