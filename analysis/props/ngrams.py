"""Dictionary and n-gram counting."""
from registry import prop
from rules import *

def fields(c):
    m = lambda t: 'HashMap<' in t
    try: ix = c.field('Dictionary', 'index', lambda t: t in ('usize', 'u64', 'u32'))
    except Missing: ix = None
    return c.field('Dictionary', 'map', m), ix
def has(m, k): return map_has(m, k)

def desc_by_count(src):
    """the entries of src, each once, by descending second component"""
    want = App('cmp', T('fld', T('sortB'), '1'), T('fld', T('sortA'), '1'))
    def f(r, st):
        if r.op == 'sorted':
            v, d = compare(r.args[0], T('entries', src))
            if v != 'eq': return v, 'lists ' + d
            o = r.args[1]
            while o.op == 'app' and o.args[0] == 'cmp.then': o = o.args[1]
            v, d = compare(o, want)
            return v, 'is ordered by: ' + d
        v, d = compare(r, T('sorted', T('entries', src), want))
        return v, d
    return f

@prop('P01')
def dictionary(c):
    mp, ix = fields(c)
    self, w = Sym('self'), Sym('word')
    M = T('fld', self, mp)
    # where the numbering starts: a counter that holds the last number, or the next one, or none at all (the size of the map tells)
    first = 0
    if ix is not None:
        rows, _, _ = c.run('Dictionary::new')
        if rows and len(rows) == 1 and rows[0].ret.op == 'agg' and get_field(rows[0].ret, ix) is Int(1): first = 1
    I = T('fld', self, ix) if ix is not None else mk_len(M)
    last = sub(I, Int(1)) if first else I
    after = {(self, ix): add(I, Int(1))} if ix is not None else {}
    # representation invariant, established by new() and kept by insert(): the numbers in use are 1..=index
    inv = [(T('unsigned', I), TRUE), (T('unsigned', map_get(M, w)), TRUE)] + ([(mk_eq(mk_len(M), last), True)] if ix is not None else [])
    known = [(has(M, w), True), (mk_le(map_get(M, w), last), True), (mk_le(Int(1), map_get(M, w)), True)]
    fresh = [(has(M, w), False)]
    same = {(self, ix): I} if ix is not None else {}
    c.table('Dictionary::insert', [
        Case('word already recorded: nothing changes', known, ret=UNIT, mem={(self, mp): M, **same}),
        Case('new word gets the next number', fresh, ret=UNIT, mem={(self, mp): map_set(M, w, add(last, Int(1))), **after}),
    ], args=[self, w], assume=inv, rule='numbers are dense, 1-based, in order of first occurrence', panics=lambda p: False)
    def fresh_dict(r, st):
        if r.op == 'agg':
            return compare(Tup(get_field(r, mp), *([get_field(r, ix)] if ix is not None else [])), Tup(T('map0'), *([Int(first)] if ix is not None else [])))
        return 'unk', 'the value built is not a plain record'
    for n in ('Dictionary::new',):
        c.table(n, [Case('starts empty with number 0 handed out', [], ret=fresh_dict)], rule='a new dictionary is empty')
    c.table('Dictionary::count', [Case('number of entries = last number handed out', [], ret=last, mem={})], args=[self], assume=inv if first else [], rule='count() is the number of entries')
    c.table('Dictionary::sorted', [Case('every entry once, by descending number', [], ret=desc_by_count(M), mem={})], args=[self], rule='sorted() lists every entry once, by descending number')

@prop('P02')
def ngram_counts(c):
    mp = c.field('Ngrams', 'counts', lambda t: 'HashMap<' in t)
    self, w = Sym('self'), Sym('word')
    M = T('fld', self, mp)
    c.table('Ngrams::get', [
        Case('recorded phrase', [(has(M, w), True)], ret=map_get(M, w), mem={}),
        Case('phrase never recorded', [(has(M, w), False)], ret=Int(0), mem={}),
    ], args=[self, w], rule='get() reports the count, 0 when never seen', panics=lambda p: False)
    c.table('Ngrams::insert', [
        Case('phrase seen before', [(has(M, w), True)], ret=UNIT, mem={(self, mp): map_set(M, w, add(map_get(M, w), Int(1)))}),
        Case('first sight', [(has(M, w), False)], ret=UNIT, mem={(self, mp): map_set(M, w, Int(1))}),
    ], args=[self, w], rule='insert() adds exactly one occurrence', panics=lambda p: False)
    DEF = '<ngrams::Ngrams as std::default::Default>::default'
    if c.fn(DEF, need=False) is not None:
        def fresh(r, st):
            if r.op == 'agg': return compare(Tup(*[get_field(r, f) for f in ('anchor', 'window_size', 'n', mp)]), Tup(NONE, Int(0), Int(1), T('map0')))
            return 'unk', 'the value built is not a plain record'
        c.table(DEF, [Case('starts empty: single words, no anchor', [], ret=fresh)], rule='a new table is empty')
    c.table('Ngrams::sorted', [Case('every phrase once, by descending count', [], ret=desc_by_count(M), mem={})], args=[self], rule='sorted() lists every phrase once, by descending count')
    c.table('Ngrams::distinct_count', [Case('number of phrases', [], ret=mk_len(M), mem={})], args=[self], rule='distinct_count() is the number of phrases')

@prop('P03')
def ngram_windows(c):
    c.model_any('Ngrams::record_words', ['record_words_queue', 'record_words_queue_plain', 'record_words_windows', 'record_words_windows_guard', 'record_words_slices', 'record_words_slices_excl'], assume=n_positive(c), numbers=[T('fld', Sym('self'), c.field('Ngrams', 'n', lambda t: t == 'usize'))],
                rule='every run of n consecutive words is recorded exactly once, joined by one space, and nothing else')
def n_positive(c):
    n = T('fld', Sym('self'), c.field('Ngrams', 'n', lambda t: t == 'usize'))
    return [(T('unsigned', n), TRUE), (mk_le(Int(1), n), True)]

def window_positive(c):
    # anchored counting is only entered with a window (see the case of add_content below)
    w = T('fld', Sym('self'), c.field('Ngrams', 'window_size', lambda t: t == 'usize'))
    return [(T('unsigned', w), TRUE), (mk_le(Int(1), w), True)]

@prop('P04')
def anchored(c):
    # record_words() does nothing with fewer than n words (P03)
    n = T('fld', Sym('self'), c.field('Ngrams', 'n', lambda t: t == 'usize'))
    c.model_any('Ngrams::add_anchored_content', [['anchored']], opaque=lambda b: b.name == 'record_words', modifies={('record_words', 0): [c.field('Ngrams', 'counts', lambda t: 'HashMap<' in t)], ('record_words', 'idle'): lambda _, words: mk_le(add(mk_len(words), Int(1)), n)}, assume=n_positive(c) + window_positive(c), events=True,
            numbers=[T('fld', Sym('self'), c.field('Ngrams', 'window_size', lambda t: t == 'usize'))], rule='a word is counted iff an anchor is at most window_size words away; each maximal run is recorded on its own')
    self = Sym('self')
    an = T('fld', self, 'anchor'); W = T('fld', self, 'window_size')
    c.table('Ngrams::add_content', [
        Case('anchored counting when an anchor and a window are set', [(T('disc', an, OPT), Int(1)), (mk_le(Int(1), W), True)], ret=UNIT, events=[('add_anchored_content', [self, Sym('content')])], frame=False),
    ], opaque=lambda b: b.name == 'add_anchored_content', assume=[(T('unsigned', W), TRUE)], args=[self, Sym('content')], panics=lambda p: False, rule='add_content() counts anchored content')
