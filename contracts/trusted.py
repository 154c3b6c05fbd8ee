"""What every proof rests on and does not check."""
BASE = [
    'rustc nightly: the MIR it prints for the crate is the code that runs (engine/mir.py parses -Zunpretty output)',
    'engine/exec.py, loops.py: the meaning given to MIR statements; loop summaries themselves are obligations',
    'Z3',
    'library contracts in engine/models.py (std collections, iterators, rayon as sequential iteration, ahash as a function of '
    'seed and content)',
    'floating point: f64 values are reals, + - * / are uninterpreted with monotonicity facts; NaN excluded',
    'Vec and map lengths stay below 2^63',
]
PER = {
    'P17': ['the query index answers with a set of points that depends on the point asked about only; a point is in its own answer',
            'points with equal ids in the list and in the index are one shared object (one cluster mark)',
            'ids issued so far plus the number of points stay below 2^64'],
    'P19': ['a file is a finite list of lines, each readable or not; the parallel form is checked for readable files only',
            'fewer than 2^64 documents'],
    'P20': ['pyo3: argument conversion and the class tables its macros generate',
            'Python: the meaning given to the syntax tree of py-gaoya/gaoya/*.py in contracts/pylayer.py',
            'the core index behaves as P01-P16 state; bands and rows given are positive; as many ids as documents',
            'str::to_lowercase is a function of the text'],
}
