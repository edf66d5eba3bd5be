"""Segmentation of the text into sentences and words."""
from registry import prop
from rules import *
import engine as E, os

def spec(f): return open(os.path.join(os.path.dirname(__file__), '..', '..', 'spec', f)).read()

def names(*ns): return lambda b: b.name in ns
HELP = ('next_word_with_length', 'wordlike_with_upper_next', 'abbreviation_check', 'is_bounded')

@prop('P20')
def words(c):
    c.model('Tokenizer::words', 'words', opaque=names('get_plaintext'), rule='maximal runs of letters and digits, in order')
    c.model('Tokenizer::words_and_punct', 'words_and_marks', opaque=names('get_plaintext'), rule='words and single marks, in order, none empty')

@prop('P21')
def sentences(c):
    c.model('Tokenizer::sentences', 'sentences', opaque=names('trim', *HELP), rule='a break exactly at the listed places; trimmed, in order, none empty')
    c.model('tokenizer::wordlike_with_upper_next', 'capital_ahead', need=False, rule='an upper-case character in the alphabetic run ahead')
    c.model_any('tokenizer::next_word_with_length', [['word_ahead', 'word_ahead_string']], need=False, rule='at most twenty alphabetic characters')
    c.model('tokenizer::is_bounded', 'bounded', need=False, rule='matching brackets or quotes')
    c.model('Tokenizer::abbreviation_check', 'abbreviation', need=False, rule='single letters and listed abbreviations')
    b = c.fn('<tokenizer::Tokenizer as std::default::Default>::default')
    rows, e, why = c.run(b)
    r = rows[0].ret if rows and len(rows) == 1 else None
    get = lambda f, p: E.get_field(r, c.field('Tokenizer', f, p)) if r is not None else None
    c.same_regex('abbreviations', 'the listed abbreviations, with at most one blank behind', c.where(b), get('abbreviations', lambda t: 'Regex' in t), spec('abbreviations.txt').rstrip('\n'))
    load, _, _ = c.run('stopwords::load')
    if r is None or not load or len(load) != 1: c.open('stop words', 'the stop words are those of the module', c.where(b), why or 'several paths')
    else:
        v, d = compare(get('stopwords', lambda t: 'HashSet' in t), load[0].ret)
        {'eq': c.ok, 'ne': c.bad, 'unk': c.open}[v]('stop words', 'the stop words are those of the module', c.where(b), d[:300])
