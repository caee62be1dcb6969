"""What every proof of this directory rests on (reported in the evidence files and DESIGN.md)."""
BASE = [
    'pyvc: the verification-condition generator of /verif/pyvc (Python semantics of the subset, loop rules, heap model)',
    'z3 and cvc5 as back ends; the polynomial normalizer of pyvc/terms.py and the summation laws of pyvc/sums.py',
    'the contracts assumed for numpy, scipy.sparse, scipy.special, pandas and builtins (pyvc/lib.py, pyvc/nplib.py)',
    'floating point numbers treated as real numbers, integers as mathematical integers (narrow integer arrays: overflow obligations)',
]
ASSUMPTIONS = [
    'machine arithmetic treated as mathematical: rounding, overflow to infinity and NaN are outside the proofs (the cross-check on the real code covers them)',
    'termination is not proved',
    'external libraries (numpy, scipy, pandas, scikit-learn, optuna) behave as their assumed contracts say',
]
PER_PROPERTY = {}
