"""Reading ITF traces."""
import json

def conv(v):
    if isinstance(v, dict):
        if '#bigint' in v: return int(v['#bigint'])
        if '#tup' in v: return tuple(conv(x) for x in v['#tup'])
        if '#set' in v: return frozenset(conv(x) for x in v['#set'])
        if '#map' in v: return {conv_key(k): conv(x) for k, x in v['#map']}
        return {k: conv(x) for k, x in v.items() if k != '#meta'}
    if isinstance(v, list): return [conv(x) for x in v]
    return v

def conv_key(k):
    k = conv(k)
    return freeze(k)

def freeze(v):
    if isinstance(v, dict): return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)): return tuple(freeze(x) for x in v)
    return v

def load(path):
    """[{'s':..,'batch':..,'res':..,'seen':..}] with plain Python values"""
    d = json.load(open(path))
    out = []
    for st in d['states']:
        row = {}
        for k, v in st.items():
            if k in ('#meta',) or k.startswith('mbt::'): continue
            row[k.split('::')[-1]] = conv(v)
        out.append(row)
    return out
