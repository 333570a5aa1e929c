"""property id -> rule function"""
import importlib
RULES = {}
ASSUMES = {}
ASSUME = [
    'analysed configuration: the feature set of the test build (OpenSSL 3.0: no eddsa, mldsa, mlkem, slhdsa, fips)',
    'facts are the MIR rustc builds for the current tree; external crates and OpenSSL are opaque',
]
for m in ('access', 'objects', 'apisurf', 'ops', 'auth', 'store', 'crypto', 'conc', 'rest', 'life', 'state', 'ffi', 'out', 'rand', 'log'):
    try:
        mod = importlib.import_module('r_' + m)
    except ModuleNotFoundError as e:
        if e.name != 'r_' + m:
            raise
        continue
    for n in dir(mod):
        if len(n) == 3 and n[0] == 'C' and n[1:].isdigit():
            RULES[n] = getattr(mod, n)
            ASSUMES[n] = getattr(mod, 'ASSUME_' + n, [])
OFF = {}
