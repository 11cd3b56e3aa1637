"""Compute mc/spec/package.json from the packaged text definitions, by an independent evaluation (run once)."""
import json, math, sys
db = json.load(open('/repo/src/eprempy/parameter/reference.json'))
INT = {'F', 'T', 'LARGEINT', 'MAX_STRING_SIZE', 'MHD_COUPLED', 'MHD_DEFAULT'}
def macro(n):
    text = db['BASETYPES_H'][n]
    class Names(dict):
        def __missing__(self, k): return macro(k)
    v = eval(text, {'__builtins__': {}, }, NamesWith())
    return int(v) if n in INT else float(v)
class NamesWith(dict):
    def __missing__(self, k):
        return math.sqrt if k == 'sqrt' else macro(k)
def param(n):
    p = db['CONFIGURATION_C'][n]
    d, mode = p['defaultVal'], p['mode']
    if mode == 'readString': return d
    if d == 'N_PROCS': return None
    if d == 'third': return 1/3
    class N(dict):
        def __missing__(self, k): return param(k) if k in db['CONFIGURATION_C'] else macro(k)
    v = eval(d.replace('config.', ''), {'__builtins__': {}}, N())
    return v if mode == 'readDoubleArray' else int(v) if mode == 'readInt' else float(v)
json.dump({'basetypes': {n: macro(n) for n in db['BASETYPES_H']}, 'defaults': {n: param(n) for n in db['CONFIGURATION_C']}}, open('/verif/mc/spec/package.json', 'w'), indent=0, sort_keys=True)
