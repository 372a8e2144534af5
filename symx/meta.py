""" What each check claims: bounds, assumptions, and what lies outside """
COMMON = [
    'arithmetic is over the exact reals: floating-point rounding is outside the claim '
    '(obligations tolerate relative error 1e-4 symbolically, 1e-6 on replay)',
    'numpy/scipy/sympy/h5py primitives behave as documented',
    'np.random is an arbitrary value of its documented range',
]
import json as _json
import os as _os
META = _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'meta.json')))
