"""op records (from the specification or a generator) -> script lines."""
def tree(v):
    """a value tree [t, n, k, c] -> tokens"""
    t = [v['t'], str(len(v['n']))] + [str(x) for x in v['n']] + [str(len(v['c']))]
    for i, c in enumerate(v['c']):
        if v['k']: t += [str(len(v['k'][i]))] + [str(x) for x in v['k'][i]] if isinstance(v['k'][i], (list, tuple)) else [str(v['k'][i])]
        t += tree(c)
    return t

def tokens(schema, o):
    t = [o['op']]
    for f in schema[o['op']].split():
        if f.endswith('*'):
            v = o[f[:-1]]
            t.append(str(len(v)))
            t += [str(x) for x in v]
        elif f.endswith('@'):     # value tree
            t += tree(o[f[:-1]])
        elif f.endswith('!'):     # raw list without length
            t += [str(x) for x in o[f[:-1]]]
        else:
            t.append(str(o[f]))
    return ' '.join(t)

def scenario(schema, header, ops, bin):
    return dict(header=header, bin=bin, ops=[(tokens(schema, o), {k: v for k, v in o.items() if k != 'bad'}) for o in ops])
