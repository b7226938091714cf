TRUSTED = [
    'the array theory vc/nparr.py (semantics of the numpy subset used), cross-checked against numpy 1.23.5 by selftest.py',
    'the path explorer vc/core.py, vc/explore.py and the loader vc/loader.py',
    'z3 and cvc5',
    'CPython executing the real source text of /repo (re-read on every run)',
]
ASSUMPTIONS = [
    'machine floats are treated as mathematical reals extended with NaN; rounding, overflow and signed infinities are not modelled '
    '(division of a non-zero number by zero is an unspecified real)',
    'integers are unbounded',
    'scipy, matplotlib and file I/O are opaque: a path that calls them is not proved (reported as bounded/unsupported)',
    'warnings.warn is a no-op; an `if` whose body only warns is not branched on',
]
