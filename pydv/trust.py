"""What a 'proved' verdict rests on."""
TRUSTED = [
    'pydv, the verification-condition generator in /verif/pydv (symbolic semantics of the Python subset used by the code)',
    'z3 5.3 and cvc5 1.4 (unsat answers are not re-checked)',
    'CPython ast: the parsed source of the running function object is what CPython executes',
]
ASSUMED = [
    'floats are treated as exact real numbers (no rounding, overflow, NaN or infinities as inputs)',
    'numbers printed with n decimals are read back as the printed value, within half a unit of the last printed decimal',
    'logging calls have no effect',
]
