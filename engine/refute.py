"""refutes a linear bound: gives the lengths and length fields of an input values with which every fact of the path holds and the bound fails"""
import itertools
from terms import *
class No(Exception): pass
def base(b):
    """(input, offset term) of a byte string that is part of an input"""
    if b.op == 'arg' or b.op == 'ext' and b.args[0] == 'file': return b, I(0)
    if b.op == 'sl':
        x, o = base(b.args[0]); return x, add(o, b.args[1])
    raise No
def atom(t):
    """(input, offset, bytes) of a field read from an input"""
    if t.op == 'num': x, o = base(t.args[2]); return x, o, t.args[1]
    if t.op == 'idx' and isbyte(t) : x, o = base(t.args[0]); return x, add(o, t.args[1]), 1
    raise No
def inputs(t): return {x for x in walk(t) if x.op == 'arg' or x.op == 'ext' and x.args[0] == 'file'}
def leaves(t, out):
    """the fields and lengths an integer or condition is made of; No when it contains anything else"""
    o = t.op
    if o in ('int', 'bool'): return
    if o == 'len':
        x, off = base(t.args[0])
        if x is not t.args[0]: raise No
        out[t] = (x, None, 0); return
    if o in ('num', 'idx'): out[t] = atom(t); leaves(out[t][1], out); return
    if o == 'poly':
        for m, _ in t.args:
            for a in m: leaves(a, out)
        return
    if o in ('ge0', 'eq0', 'not', 'and', 'or'):
        for a in t.args: leaves(a, out)
        return
    if o == 'eq' and all(_num(a) for a in t.args):
        for a in t.args: leaves(a, out)
        return
    raise No
def _num(t): return t.op in ('int', 'poly', 'len', 'num', 'idx')
def val(t, e):
    o = t.op
    if o in ('int', 'bool'): return t.args[0]
    if t in e: return e[t]
    if o == 'poly':
        s = 0
        for m, k in t.args:
            for a in m: k *= val(a, e)
            s += k
        return s
    if o == 'ge0': return val(t.args[0], e) >= 0
    if o == 'eq0': return val(t.args[0], e) == 0
    if o == 'eq': return val(t.args[0], e) == val(t.args[1], e)
    if o == 'not': return not val(t.args[0], e)
    if o == 'and': return all(val(a, e) for a in t.args)
    if o == 'or': return any(val(a, e) for a in t.args)
    raise No
def refute(x, facts, limit=20000):
    """an assignment (dict) or None"""
    try:
        use, lv = [], {}
        leaves(x, lv); srcs = {v[0] for v in lv.values()}
        if not lv: return None
        while True:
            n = len(srcs)
            for f in facts:
                if f not in use and f.op not in ('bool',) and inputs(f) & srcs:
                    if f.op == 'ext' and f.args[0] in ('canread', 'canread_all'): continue
                    use.append(f); leaves(f, lv); srcs |= {v[0] for v in lv.values()}
            if len(srcs) == n: break
        lens = [a for a in lv if a.op == 'len']; flds = [a for a in lv if a.op != 'len']
        if len(lens) > 2 or len(flds) > 6: return None
        flds.sort(key=lambda a: a.id)
        cand = {}
        for a in flds:
            top = (1 << 8 * lv[a][2]) - 1
            cand[a] = [v for v in (0, 1, 2, 3, 40, 255, 65536, top) if v <= top] if lv[a][2] > 1 else [0, 1, 2, 255]
        bounds = [y.args[0] for f in use + [x] for y in walk(f) if y.op in ('ge0', 'eq0')]
        n = 0
        for vs in itertools.product(*[sorted(set(cand[a])) for a in flds]):
            e = dict(zip(flds, vs))
            ls = []
            for l in lens:
                c = set()
                for p in bounds:
                    ms = p.args if p.op == 'poly' else (((p,), 1),) if p.op != 'int' else ()
                    k = [q for m, q in ms if m == (l,)]
                    if len(k) != 1 or k[0] not in (1, -1): continue
                    try: r = sum(q * _prod(m, e) for m, q in ms if m != (l,))
                    except (KeyError, No): continue
                    z = -r * k[0]; c |= {z - 1, z, z + 1}
                ls.append(sorted(v for v in c if 0 <= v < 1 << 40) or [0])
            for ws in itertools.product(*ls):
                n += 1
                if n > limit: return None
                e2 = dict(e); e2.update(zip(lens, ws))
                if val(x, e2) or not all(val(f, e2) for f in use): continue
                if consistent(lv, e2): return e2
    except No: return None
    return None
def _prod(m, e):
    r = 1
    for a in m: r *= e[a] if a in e else val(a, e)
    return r
def consistent(lv, e):
    """every field lies inside its input and no two fields share bytes"""
    L = {v[0]: e[a] for a, v in lv.items() if a.op == 'len'}; sp = {}
    for a, (b, off, w) in lv.items():
        if a.op == 'len': continue
        o = val(off, e)
        if o < 0 or b in L and o + w > L[b]: return False
        for p, q in sp.get(b, ()):
            if o < q and p < o + w and (o, o + w) != (p, q): return False
            if (o, o + w) == (p, q): return False
        sp.setdefault(b, []).append((o, o + w))
    return True
