"""Hash-consed terms of the gated value graph, their algebraic normal forms, and an alpha-canonical digest.

Everything here is syntactic rewriting (value numbering): no path is executed and no solver is called.
"""
import hashlib, itertools, sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'args', 'id', 'fv', 'unk')
    def __repr__(self):
        return show(self)

_tab = {}
_REB = {}
_ctr = itertools.count()
_EMPTY = frozenset()

def _kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _kids(y)

def raw(op, *args):
    if op == 'bytes' and not args[0]: return EMPTY
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.id = next(_ctr)
        if op == 'sym':
            t.fv = frozenset((t,)); t.unk = False
        else:
            fv = _EMPTY; unk = op == 'unk'
            for c in _kids(args):
                if c.fv: fv = fv | c.fv
                unk = unk or c.unk
            t.fv = fv; t.unk = unk
        _tab[k] = t
        if FUEL[0] is not None: burn()
    return t
FUEL = [None]
class OutOfFuel(Exception): pass
def burn():
    """bounds the work of a comparison that may be given up"""
    FUEL[0] -= 1
    if FUEL[0] < 0: FUEL[0] = None; raise OutOfFuel()

# ---------------------------------------------------------------- leaves
def I(n): return raw('int', int(n))
def S(s): return raw('str', s)
def B(b): return raw('bool', bool(b))
TRUE, FALSE, UNIT = raw('bool', True), raw('bool', False), raw('tup')
UNDEF, NULL = raw('undef'), raw('null')
_symc = itertools.count(1)
def sym(hint='b', nonneg=False):
    return raw('sym', hint + '#' + str(next(_symc)), nonneg)
def arg(name, ty=''): return raw('arg', name, ty)
def unk(*a): return raw('unk', *a)
def ext(name, *args):
    if name in ('bigint', 'bigint_ok') and len(args) == 1 and args[0].op == 'ite': return ite(args[0].args[0], ext(name, args[0].args[1]), ext(name, args[0].args[2]))
    if name == 'entries' and args[0].op == 'map' and ownkeys(args[0].args[0]): return args[0].args[0]
    return raw('ext', name, *args)
def ownkeys(l):
    """a log of some entries of one map, each under its own key: no key twice"""
    g = l.args[0] if l.op == 'seq' and len(l.args) == 1 else None
    if g is None or g.op != 'G' or g.args[2].op != 'seq' or len(g.args[2].args) != 1: return False
    b = g.args[2].args[0]
    if b.op == 'site': b = b.args[1] if b.args[2].op == 'seq' and not b.args[2].args else b.args[2] if b.args[1].op == 'seq' and not b.args[1].args else b; b = b.args[0] if b.op == 'seq' and len(b.args) == 1 else b
    if b.op != 'one': return False
    e = b.args[0]; k = e.args[0] if e.op == 'tup' and e.args and isinstance(e.args[0], T) else fld(e, '0')
    return k.op == 'fld' and k.args[1] == '0' and k.args[0].op == 'idx' and k.args[0].args[1] is g.args[0] and k.args[0].args[0].op == 'ext' and k.args[0].args[0].args[0] == 'entries'

# ---------------------------------------------------------------- polynomials (integers, field and group elements)
def _mono(t):
    """term -> dict monomial->coef"""
    if t.op == 'int': return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly': return dict(t.args)
    return {(t,): 1}

def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return I(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return I(c)
        if c == 1 and len(m) == 1: return m[0]
    return raw('poly', *sorted(((m, c) for m, c in d.items()), key=lambda mc: ([x.id for x in mc[0]], mc[1])))

def add(*ts):
    d = {}
    for t in ts:
        if t.op == 'ite':
            pass
        for m, c in _mono(t).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d)

def neg(t): return mkpoly({m: -c for m, c in _mono(t).items()})
def sub(a, b): return add(a, neg(b))
def mul(a, b):
    d = {}
    for m1, c1 in _mono(a).items():
        for m2, c2 in _mono(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)
def cst(t): return t.args[0] if t.op == 'int' else None

def nonneg_atom(t):
    o = t.op
    if o == 'sym': return t.args[1]
    if o in ('len', 'num', 'brkn', 'pos', 'umuat', 'min', 'udiv', 'urem', 'band', 'limb', 'fmod', 'pow2'): return True
    if o == 'trunc': return t.args[0][0] == 'u'
    if o == 'shr': return nonneg(t.args[0])
    if o == 'idx': return isbyte(t)
    if o == 'arg': return t.args[1] in ('u8', 'u16', 'u32', 'u64', 'usize')
    if o == 'muat': return murange(t.args[0]) is not None
    if o == 'ext': return bool(t.args) and t.args[0] in UNSIGNED_EXT
    if o in ('bxor', 'bor', 'shl'): return all(nonneg(x) for x in t.args)
    if o == 'ite': return nonneg(t.args[1]) and nonneg(t.args[2])
    if o == 'fld': return t.args[1] in UNSIGNED_FLD
    return False
UNSIGNED_EXT = {'count', 'inst:getFieldNumLen32', 'inst:getWitnessSize', 'mapsize', 'num_instance_variables', 'num_constraints', 'num_witness_variables', 'size', 'charcode'}
UNSIGNED_FLD = set()

def isbyte(t):
    b = t.args[0]
    while b.op in ('sl', 'wr'): b = b.args[0]
    return b.op == 'arg' and b.args[1] == 'bytes' or b.op == 'ext' and b.args[0] == 'file'
MURANGE = {}
def murange(m):
    """an upper bound of a variable that only ever holds small unsigned numbers read from the input"""
    if m.op != 'mu': return None
    if m in MURANGE: return MURANGE[m]
    w = m.args[0]; st = [m.args[2][w], m.args[3][w]]; hi = 0; me = m.args[1][w]
    while st and hi is not None:
        x = st.pop()
        if x is me: continue
        if x.op == 'ite': st += x.args[1:]
        elif x.op == 'under': st.append(x.args[1])
        elif x.op == 'int' and x.args[0] >= 0: hi = max(hi, x.args[0])
        elif x.op == 'num' and x.args[1] <= 8: hi = max(hi, (1 << 8 * x.args[1]) - 1)
        else: hi = None
    MURANGE[m] = hi
    return hi
def _uppers(x):
    """terms known to be >= x"""
    if x.op == 'num': return (I((1 << (8 * x.args[1])) - 1),)
    if x.op == 'min': return x.args
    if x.op == 'idx' and isbyte(x): return (I(255),)
    if x.op == 'limb': return (I((1 << x.args[2]) - 1),)
    if x.op == 'fmod': return (sub(x.args[1], I(1)),)
    if x.op == 'brkn' and x.args[1] is not INF: return (x.args[1],)
    if x.op == 'trunc' and x.args[0] in ('u8', 'u16', 'u32'): return (I((1 << BITS[x.args[0]]) - 1),)
    if x.op == 'muat':
        r = murange(x.args[0])
        return () if r is None else (I(r),)
    if x.op == 'arg' and x.args[1] in ('u8', 'u16', 'u32', 'u64'): return (I((1 << BITS[x.args[1]]) - 1),)
    return ()
ATLEAST1 = {'num_instance_variables'}
def nonneg(t, d=3):
    low = []
    mt = _mono(t)
    if mt.get((), 0) < 0:
        for m, c in list(mt.items()):
            if c > 0 and len(m) == 1 and m[0].op == 'ext' and m[0].args[0] in ATLEAST1 and mt[()] < 0:
                mt[()] += c       # the constant one is always an instance variable
        if mt[()] == 0: del mt[()]
    for m, c in mt.items():
        if not all(nonneg_atom(x) for x in m): return False
        if c < 0: low.append((m, c))
    if not low: return True
    if d == 0: return False
    for m, c in low:
        if len(m) == 1:
            for u in _uppers(m[0]):
                # t = rest + c*x with c < 0 and x <= u:  t >= rest + c*u
                if nonneg(add(t, mkpoly({m: -c}), mul(I(c), u)), d - 1): return True
    return False
def positive(t):
    m = _mono(t)
    return m.get((), 0) > 0 and nonneg(t)

def atleast1(d):
    return d.op in ('ext', 'poly') and any(len(m) == 1 and m[0].op == 'ext' and m[0].args[0] in ATLEAST1 for m in _mono(d)) and nonneg(add(d, I(-1)))
def maybe_nan(t):
    if t.op == 'ext' and t.args[0] in ('parseInt', 'Number', 'parseFloat', 'jsabs'): return True
    if t.op == 'poly': return any(maybe_nan(x) for m, _ in t.args for x in m)
    if t.op == 'ite': return maybe_nan(t.args[1]) or maybe_nan(t.args[2])
    if t.op in ('idx', 'fld'):
        # an element of a computed list
        while t.op in ('idx', 'fld'): t = t.args[0]
        return t.op == 'seq' and any(x.op == 'ext' and x.args[0] in ('parseInt', 'Number', 'parseFloat') for x in walk(t))
    return False

# ---------------------------------------------------------------- booleans
def ge0(p):
    c = cst(p)
    if c is not None: return B(c >= 0)
    if p.op == 'ite' : return ite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    if nonneg(p): return TRUE
    if nonneg(sub(neg(p), I(1))): return FALSE
    if p.op == 'poly':
        its = {x for m, _ in p.args for x in m if x.op == 'ite'}
        if len(its) == 1:
            x = its.pop(); g = x.args[0]
            a, b = (substany(p, {x: y}) for y in x.args[1:])
            return ite(g, ge0(a), ge0(b))
        for k, v in p.args:
            # min(a, b) + x >= 0 where both are, x - min(a, b) >= 0 where one is
            if len(k) == 1 and k[0].op == 'min' and not any(k[0] in n for n, _ in p.args if n != k):
                rest = sub(p, mul(I(v), k[0])); a, b = (ge0(add(rest, mul(I(v), y))) for y in k[0].args)
                return (and_ if v > 0 else or_)(a, b)
        inf = [c for m, c in p.args if len(m) == 1 and m[0].op == 'ext' and m[0].args[0] == 'Infinity']
        if len(inf) == 1: return B(inf[0] > 0)
    # divide by the gcd of the non-constant coefficients
    import math
    m = _mono(p); g = 0
    for k, v in m.items():
        if k: g = math.gcd(g, abs(v))
    if g > 1:
        m = {k: (v // g) for k, v in m.items()}   # floor for the constant
        p = mkpoly(m)
    return raw('ge0', p)
def ge(a, b):
    if maybe_nan(a) or maybe_nan(b): return raw('ge', a, b) if a.op != 'ite' and b.op != 'ite' else overites(ge, a, b)
    return ge0(sub(a, b))
def lt(a, b):
    if maybe_nan(a) or maybe_nan(b): return raw('lt', a, b) if a.op != 'ite' and b.op != 'ite' else overites(lt, a, b)
    return ge0(add(sub(b, a), I(-1)))
def overites(f, a, b):
    if a.op == 'ite': return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
def gt(a, b): return lt(b, a)
def le(a, b): return ge(b, a)

def _isnum(t): return t.op in ('int', 'poly', 'len', 'num', 'trunc', 'enc', 'udiv', 'urem', 'brkn', 'band', 'min', 'limb', 'shr', 'fmod', 'srem', 'pow2')
CTORS = ('adt', 'var', 'tup', 'int', 'str', 'bool', 'undef', 'null', 'arr')
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'bool': return b if a.args[0] else not_(b)
    if b.op == 'bool': return a if b.args[0] else not_(a)
    if a.op == 'ite' and not (b.op == 'ite'):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and a.op != 'ite':
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op in ('undef', 'null') or b.op in ('undef', 'null'):
        if a.op in ('undef', 'null') and b.op in ('undef', 'null'): return B(a is b)
        x, u = (b, a) if a.op in ('undef', 'null') else (a, b)
        if x.op in CTORS or x.op in ('poly', 'seq', 'map', 'hnd', 'clo', 'cat', 'len', 'num'): return FALSE
    if a.op == 'str' and b.op == 'str': return FALSE
    if a.op == 'num' and b.op == 'num' and a.args[:2] == b.args[:2]: return eq(a.args[2], b.args[2])
    for x, y in ((a, b), (b, a)):
        # the number that four characters encode
        if x.op == 'num' and x.args[1] >= 4 and cst(y) is not None and 0 <= cst(y) < 1 << 8 * x.args[1]:
            w = cst(y).to_bytes(x.args[1], 'little' if x.args[0] == 'le' else 'big')
            if all(32 < k < 127 for k in w): return eq(x.args[2], raw('bytes', w))
    if _isnum(a) or _isnum(b):
        d = sub(a, b); c = cst(d)
        if c is not None: return B(c == 0)
        import math
        m = _mono(d); g = 0
        for v in m.values(): g = math.gcd(g, abs(v))
        lead = sorted(m, key=lambda k: [x.id for x in k])[-1]
        if m[lead] < 0: g = -g
        if g not in (0, 1): d = mkpoly({k: v // g for k, v in m.items()})
        if positive(d) or positive(neg(d)) or atleast1(d): return FALSE
        # len(x)==0 and such:  nonneg polynomial equal to zero
        if nonneg(d) and d.op in ('len', 'num', 'arg'): return not_(ge0(add(d, I(-1))))
        if nonneg(neg(d)): return ge0(d)
        return raw('eq0', d)
    if a.op == 'var' and b.op == 'var':
        if a.args[0] != b.args[0]: return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])])
    if a.op == 'var' and not a.args[1]: return isv(b, a.args[0])
    if b.op == 'var' and not b.args[1]: return isv(a, b.args[0])
    if a.op == 'var' and a.args[0] in ('Some', 'Ok', 'Err'):
        return and_(isv(b, a.args[0]), eq(pl(b, a.args[0], 0), a.args[1][0]))
    if b.op == 'var' and b.args[0] in ('Some', 'Ok', 'Err'):
        return and_(isv(a, b.args[0]), eq(pl(a, b.args[0], 0), b.args[1][0]))
    if a.op == 'seq' and not a.args: return eq(ln(b), I(0))
    if b.op == 'seq' and not b.args: return eq(ln(a), I(0))
    if a.id > b.id: a, b = b, a
    return raw('eq', a, b)

_not = {}
def not_(c):
    o = c.op
    if o in ('and', 'or', 'ite'):
        r = _not.get(c)
        if r is None:
            if FUEL[0] is not None: burn()
            r = _not[c] = not1(c)
        return r
    return not1(c)
def not1(c):
    o = c.op
    if o == 'bool': return B(not c.args[0])
    if o == 'not': return c.args[0]
    if o == 'ge0': return ge0(sub(neg(c.args[0]), I(1)))
    if o == 'and': return or_(*[not_(x) for x in c.args])
    if o == 'or': return and_(*[not_(x) for x in c.args])
    if o == 'ite': return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    if o == 'isv':
        other = {'Ok': 'Err', 'Err': 'Ok', 'Some': 'None', 'None': 'Some'}.get(c.args[1])
        if other in ('Ok', 'Some') : return isv(c.args[0], other)
    return raw('not', c)

def _implies_lin(b, a):
    """atom b implies atom a, both ge0"""
    return nonneg(sub(a.args[0], b.args[0]))

RESTS = set()      # separators of split_once
def afterprefix(c, a):
    """a where c: what follows the separator of a known prefix"""
    m = {}
    for x in (c.args if c.op == 'and' else (c,)):
        if x.op == 'ext' and x.args[0] == 'starts_with' and x.args[2].op == 'str':
            for s in RESTS:
                p = x.args[2].args[0]
                if s.op == 'str' and p.endswith(s.args[0]) and p.index(s.args[0]) == len(p) - len(s.args[0]):
                    m[ext('rest', x.args[1], s)] = sl(x.args[1], I(len(p)), ln(x.args[1]))
    return substany(a, m) if m else a
def and_(*cs):
    out = []; seen = set()
    st = list(cs)[::-1]
    while st:
        c = st.pop()
        if c is TRUE: continue
        if c is FALSE: return FALSE
        if c.op == 'and': st.extend(c.args[::-1]); continue
        if c in seen: continue
        if not_(c) in seen: return FALSE
        seen.add(c); out.append(c)
    vs = {}
    for c in out:
        if c.op == 'isv':
            if vs.setdefault(c.args[0], c.args[1]) != c.args[1]: return FALSE
    if RESTS:
        # the part before a separator: x = K sep ...
        ks = {c.args[1:]: c for c in out if c.op == 'ext' and c.args[0] == 'contains'}
        for c in out if ks else ():
            if c.op == 'eq':
                for y, z in (c.args, c.args[::-1]):
                    if y.op == 'str' and z.op == 'idx' and z.args[1] is I(0) and z.args[0].op == 'ext' and z.args[0].args[0] == 'split' and z.args[0].args[1:] in ks and z.args[0].args[2].op == 'str' and z.args[0].args[2].args[0] not in y.args[0]:
                        return and_(*[w for w in out if w is not c and w is not ks[z.args[0].args[1:]]], ext('starts_with', z.args[0].args[1], S(y.args[0] + z.args[0].args[2].args[0])))
    if vs: out = [c for c in out if not (c.op == 'not' and c.args[0].op == 'isv' and vs.get(c.args[0].args[0], c.args[0].args[1]) != c.args[0].args[1])]
    # x>=k and x!=k  ->  x>=k+1 ; drop implied linear atoms
    ges = [c for c in out if c.op == 'ge0']
    if len(ges) > 1:
        drop = set()
        for i, a in enumerate(ges):
            for j, b in enumerate(ges):
                if i != j and b not in drop and a not in drop and _implies_lin(b, a): drop.add(a)
        for a in ges:
            if a in drop: continue
            for b in ges:
                if b is not a and nonneg(sub(sub(neg(a.args[0]), I(1)), b.args[0])): return FALSE
        if drop: out = [c for c in out if c not in drop]
        # x>=k and x<=k  ->  x==k
        gs = [c for c in out if c.op == 'ge0']
        for i, a in enumerate(gs):
            na = neg(a.args[0])
            for b in gs[i + 1:]:
                if b.args[0] is na: return and_(*[eq(a.args[0], I(0)) if c is a else c for c in out if c is not b])
    # an 'or' containing an already true atom disappears
    s = set(out)
    res = []
    ges = [c for c in out if c.op == 'ge0']
    for c in out:
        if c.op == 'or' and any(x in s for x in c.args): continue
        if c.op == 'or' and ges and any(x.op == 'ge0' and any(_implies_lin(g, x) for g in ges) for x in c.args): continue
        if c.op == 'or':
            k = [x for x in c.args if not_(x) not in s]
            if len(k) != len(c.args):
                return and_(*[y for y in out if y is not c], or_(*k))
            # every disjunct of another clause implies one of this clause's
            if any(d is not c and d.op == 'or' and len(d.args) <= len(c.args) and all(x in c.args or x.op == 'ge0' and any(y.op == 'ge0' and _implies_lin(x, y) for y in c.args) for x in d.args) for d in out): continue
        res.append(c)
    if not res: return TRUE
    if len(res) == 1: return res[0]
    return raw('and', *sorted(res, key=lambda x: x.id))

def decided(x, pts):
    """x, knowing the values of some sums"""
    y = x.args[0] if x.op == 'not' else x
    if y.op in ('eq0', 'ge0'):
        q, k = linear(y.args[0]); v = pts.get(q)
        if v is None:
            v = pts.get(neg(q)); v = None if v is None else -v
        if v is not None: return B((v + k == 0 if y.op == 'eq0' else v + k >= 0) != (x.op == 'not'))
    if x.op in ('and', 'or') :
        z = [decided(w, pts) for w in x.args]
        if any(a is not b for a, b in zip(z, x.args)): return and_(*z) if x.op == 'and' else or_(*z)
    return x
def settled(cs):
    """the conjuncts cs, where an equation settles the other conditions on the same sum"""
    pts = {}
    for c in cs:
        if c.op == 'eq0': q, k = linear(c.args[0]); pts[q] = -k
    eqs = [c for c in cs if c.op == 'eq0' and pts[linear(c.args[0])[0]] == -linear(c.args[0])[1]]
    return eqs + [decided(c, pts) for c in cs if c not in eqs]
def or_(*cs):
    out = []; seen = set()
    st = list(cs)[::-1]
    while st:
        c = st.pop()
        if c is FALSE: continue
        if c is TRUE: return TRUE
        if c.op == 'or': st.extend(c.args[::-1]); continue
        if c in seen: continue
        if not_(c) in seen: return TRUE
        seen.add(c); out.append(c)
    s = set(out)
    ges = [c for c in out if c.op == 'ge0']
    drop = set()
    for i, a in enumerate(ges):
        for j, b in enumerate(ges):
            if i != j and a not in drop and b not in drop and _implies_lin(a, b): drop.add(a)
    out = [c for c in out if c not in drop]
    res = []
    for c in out:
        if c.op == 'and' and any(x in s for x in c.args): continue
        if c.op == 'and':
            k = [x for x in c.args if not_(x) not in s]
            if len(k) != len(c.args):
                return or_(*[y for y in out if y is not c], and_(*k))
        res.append(c)
    if not res: return FALSE
    if len(res) == 1: return res[0]
    return raw('or', *sorted(res, key=lambda x: x.id))

def isbool(t):
    return t.op in ('bool', 'ge0', 'eq0', 'eq', 'not', 'and', 'or', 'isv', 'all', 'ge', 'lt', 'truthy') or \
        (t.op == 'ite' and isbool(t.args[1]) and isbool(t.args[2])) or (t.op == 'arg' and t.args[1] == 'bool') or t.op == 'ext' and t.args[0] in BOOLEXT
BOOLEXT = {'starts_with', 'ends_with', 'contains', 'hasprop', 'instanceof', 're_test', 'truthy', 'looseeq', 'isArray', 'isNull', 'isUndefined', 'safeint', 'is_satisfied'}

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if isbool(a) and isbool(b):
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'bool': return or_(c, b) if a.args[0] else and_(not_(c), b)
    if b.op == 'bool': return or_(not_(c), a) if b.args[0] else and_(c, a)
    if a.op == 'bot': return b
    if b.op == 'bot': return a
    if c.op == 'ge0' and (_isnum(a) or _isnum(b)) and not (maybe_nan(a) or maybe_nan(b)):
        d = sub(b, a)
        if d is c.args[0] or d is add(c.args[0], I(1)): return mnt(a, b)
        d = neg(d)
        if d is c.args[0] or d is add(c.args[0], I(1)): return sub(add(a, b), mnt(a, b))
    if c.op == 'ge0' and (a.op == 'srem' or b.op == 'srem'):
        # r < 0 ? r + p : r   with r = v % p
        for x, y, g in ((a, b, c), (b, a, not_(c))):
            if x.op == 'srem' and g.args[0] is x and y is add(x, x.args[1]): return fmod(*x.args)
    if a.op == 'map' and b.op == 'map':
        return mapt(ite(c, _aslog(a.args[0]), _aslog(b.args[0])))
    if a.op == 'sl' and b.op == 'sl' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        h = ite(c, sub(a.args[2], a.args[1]), sub(b.args[2], a.args[1]))
        if h.op != 'ite': return sl(a.args[0], a.args[1], add(a.args[1], h))
    for x, y in ((a, b), (b, a)):
        # a constant list or one computed element by element, of the same length
        if x.op == 'rep' and y.op == 'seq' and len(y.args) == 1 and y.args[0].op == 'G' and y.args[0].args[1] is x.args[1] and len(y.args[0].args[2].args) == 1 and y.args[0].args[2].args[0].op == 'one':
            g = y.args[0]; e = g.args[2].args[0].args[0]
            if g.args[0] not in c.fv and g.args[0] not in x.args[0].fv:
                return G(g.args[0], g.args[1], seq(one(ite(c, x.args[0], e) if x is a else ite(c, e, x.args[0]))))
    if (a.op == 'seq' or b.op == 'seq') and a.op not in _NOTSEQ and b.op not in _NOTSEQ:
        A, Bs = (a.args if a.op == 'seq' else (a,)), (b.args if b.op == 'seq' else (b,))
        k = 0
        while k < len(A) and k < len(Bs) and A[k] is Bs[k]: k += 1
        if a.op == 'seq' and b.op == 'seq' or k:
            j = 0
            while j < len(A) - k and j < len(Bs) - k and A[-1 - j] is Bs[-1 - j]: j += 1
            return seq(*A[:k], site(c, seq(*A[k:len(A) - j]), seq(*Bs[k:len(Bs) - j])), *A[len(A) - j:])
        if a is EMPTY or b is EMPTY:
            return site(c, a if a.op == 'seq' else raw('seq', a), b if b.op == 'seq' else raw('seq', b))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.op == 'var' and b.op == 'var' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        return var(a.args[0], *[ite(c, x, y) for x, y in zip(a.args[1], b.args[1])])
    # right-leaning chains of the same payload:  ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == 'ite' and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a: return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == 'ite' and a.args[2] is b: return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b: return ite(and_(c, not_(a.args[0])), a.args[2], b)
    # pull a common constructor out
    if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0] and [n for n, _ in a.args[1]] == [n for n, _ in b.args[1]]:
        return raw('adt', a.args[0], tuple((n, ite(c, x, y)) for (n, x), (_, y) in zip(a.args[1], b.args[1])))
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        return raw('tup', *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    # a variant merged with something that carries the same variant deeper:  Err leaves float outwards
    if a.op == 'ite' and b.op == 'var' and b.args[0] in ('Err', 'None'):
        # ite(c, ite(d, X, Err e1), Err e2) -> ite(c&d, X, ite(c, Err e1, Err e2)) = Err(..)
        for (d, x, e) in ((a.args[0], a.args[1], a.args[2]), (not_(a.args[0]), a.args[2], a.args[1])):
            if e.op == 'var' and e.args[0] == b.args[0]:
                return ite(and_(c, d), x, ite(c, e, b))
    if b.op == 'ite' and a.op == 'var' and a.args[0] in ('Err', 'None'):
        for (d, x, e) in ((b.args[0], b.args[1], b.args[2]), (not_(b.args[0]), b.args[2], b.args[1])):
            if e.op == 'var' and e.args[0] == a.args[0]:
                return ite(and_(not_(c), d), x, ite(c, a, e))
    return raw('ite', c, a, b)

# ---------------------------------------------------------------- data
def var(name, *fields): return raw('var', name, tuple(fields))
def Ok(v): return var('Ok', v)
def Err(v=UNIT): return var('Err', v)
def Some(v): return var('Some', v)
NONE = raw('var', 'None', ())
def tup(*xs): return raw('tup', *xs)
def adt(name, fields): return raw('adt', name, tuple(sorted(fields.items())))

_NOTSEQ = ('undef', 'null', 'var', 'adt', 'int', 'bool', 'tup', 'poly', 'map', 'sym', 'unk', 'bot', 'ref', 'hnd', 'str', 'cat')
def _aslog(t): return t

_isv = {}
def isv(t, v):
    if t.op == 'var': return B(t.args[0] == v)
    if t.op == 'ite':
        r = _isv.get((t, v))
        if r is None:
            if FUEL[0] is not None: burn()
            r = _isv[t, v] = ite(t.args[0], isv(t.args[1], v), isv(t.args[2], v))
        return r
    if t.op == 'upd': return unk('isv', t)
    if v == 'Err': return not_(isv(t, 'Ok'))
    if v == 'None': return not_(isv(t, 'Some'))
    return raw('isv', t, v)

def pl(t, v, i):
    """payload i of variant v (meaningful only where isv(t, v) holds)"""
    if t.op == 'var':
        if t.args[0] == v and i < len(t.args[1]): return t.args[1][i]
        return raw('bot')
    if t.op == 'ite':
        a, b = pl(t.args[1], v, i), pl(t.args[2], v, i)
        if a.op == 'bot': return b
        if b.op == 'bot': return a
        return ite(t.args[0], a, b)
    return raw('pl', t, v, i)
BOT = raw('bot')

def fld(t, n):
    if t.op == 'adt':
        for k, v in t.args[1]:
            if k == n: return v
    if t.op == 'tup' and isinstance(n, str) and n.isdigit() and int(n) < len(t.args): return t.args[int(n)]
    if t.op == 'var' and isinstance(n, str) and n.isdigit() and int(n) < len(t.args[1]): return t.args[1][int(n)]
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        if a.op == 'bot': return fld(b, n)
        if b.op == 'bot': return fld(a, n)
        return ite(t.args[0], fld(a, n), fld(b, n))
    if t.op == 'bot': return BOT
    if t.op in ('arr', 'seq') and isinstance(n, str) and n.isdigit(): return idx(t, I(int(n)))
    return raw('fld', t, n)

def setfld(t, n, v):
    if t.op == 'adt':
        d = dict(t.args[1]); d[n] = v
        return raw('adt', t.args[0], tuple(sorted(d.items())))
    if t.op == 'tup' and n.isdigit():
        l = list(t.args); l[int(n)] = v
        return raw('tup', *l)
    if t.op == 'var' and n.isdigit():
        l = list(t.args[1]); l[int(n)] = v
        return raw('var', t.args[0], tuple(l))
    if t.op == 'ite':
        return ite(t.args[0], setfld(t.args[1], n, v), setfld(t.args[2], n, v))
    if t.op == 'with':
        d = dict(t.args[1]); d[n] = v
        return raw('with', t.args[0], tuple(sorted(d.items())))
    return raw('with', t, ((n, v),))

_fld0 = fld
def fld(t, n):
    if t.op == 'with':
        for k, v in t.args[1]:
            if k == n: return v
        return fld(t.args[0], n)
    return _fld0(t, n)

# ---------------------------------------------------------------- sequences (vectors, byte strings, slices, iterators)
# seq(segments...): a segment is  one(e) | any sequence-valued term | G(bv, n, body-seq) | site(c, seq, seq)
def one(e): return raw('one', e)
def seq(*segs):
    out = []
    for s in segs:
        if s.op == 'seq': out.extend(s.args)
        elif s.op == 'site' and s.args[1].op == 'seq' and not s.args[1].args and s.args[2].op == 'seq' and not s.args[2].args: pass
        elif s.op == 'arr': out.extend(one(x) for x in s.args)
        elif s.op == 'sl' and s.args[1] is s.args[2]: pass
        elif s.op == 'rep' and cst(s.args[1]) == 0: pass
        elif s.op == 'G' and s.args[2].op == 'seq' and not s.args[2].args: pass
        elif s.op == 'G' and cst(s.args[1]) == 0: pass
        elif s.op == 'str' : out.append(s) if s.args[0] else None
        elif s.op == 'ite' and len(segs) > 1: out.extend(segite(s).args)
        elif s.op in ('rep', 'G') and s.args[1].op == 'ite' and any(cst(x) == 0 for x in s.args[1].args[1:]):
            c, x, y = s.args[1].args; w = lambda n: seq(raw('rep', s.args[0], n)) if s.op == 'rep' else seq(raw('G', s.args[0], n, s.args[2]))
            r = site(c, w(x), w(y)); out.extend(r.args if r.op == 'seq' else [r])
        else: out.append(s)
    # merge adjacent contiguous slices
    m = []
    for s in out:
        if m and s.op == 'sl' and m[-1].op == 'sl' and m[-1].args[0] is s.args[0] and m[-1].args[2] is s.args[1]:
            m[-1] = sl(s.args[0], m[-1].args[1], s.args[2])
        elif m and s.op == 'ext' and s.args[0] == 'keystream' and m[-1].op == 'ext' and m[-1].args[0] == 'keystream' and s.args[1].op == 'ext' \
                and s.args[1].args[0] == 'keystream_next' and s.args[1].args[1] is m[-1].args[1] and s.args[1].args[2] is ln(m[-1].args[2]):
            m[-1] = raw('ext', 'keystream', m[-1].args[1], seq(m[-1].args[2], s.args[2]))       # one stream, in two pieces
        else: m.append(s)
    # the bytes of one number, written out one at a time
    lb = [s.args[0] if s.op == 'one' and s.args[0].op == 'limb' and s.args[0].args[2] == 8 else None for s in m]
    if sum(x is not None for x in lb) >= 4:
        out = []; i = 0
        while i < len(m):
            for n, en in ((8, 'be'), (4, 'be'), (4, 'le')):
                w = lb[i:i + n]
                if len(w) == n and all(x is not None and x.args[0] is w[0].args[0] and cst(x.args[1]) == 8 * (n - 1 - k if en == 'be' else k) for k, x in enumerate(w)):
                    v = w[0].args[0]
                    if not (nonneg(v) and nonneg(sub(I((1 << 8 * n) - 1), v))): v = trunc('u%d' % (8 * n), v)
                    out.append(enc(en, n, v)); i += n; break
            else: out.append(m[i]); i += 1
        m = out
    # constant bytes in one run
    if any(s.op == 'bytes' for s in m) or sum(1 for s in m if s.op == 'one') > 1:
        out = []
        for s in m:
            b = s.args[0] if s.op == 'bytes' else bytes([cst(s.args[0])]) if s.op == 'one' and cst(s.args[0]) is not None and 0 <= cst(s.args[0]) < 256 else None
            if b is None or not out or out[-1][1] is None: out.append([s, b])
            else: out[-1] = [raw('bytes', out[-1][1] + b), out[-1][1] + b]
        m = [x[0] for x in out]
        if len(m) > 1: m = [one(I(s.args[0][0])) if s.op == 'bytes' and len(s.args[0]) == 1 else s for s in m]
    if len(m) == 1 and m[0].op not in ('one', 'G', 'site'): return m[0]
    return raw('seq', *m)
EMPTY = raw('seq')

def arr(*xs):
    # [b[i], b[i+1], ...]  ->  b[i..i+n]
    if len(xs) >= 2 and all(x.op == 'idx' for x in xs):
        b, i0 = xs[0].args
        if all(x.args[0] is b and x.args[1] is add(i0, I(k)) for k, x in enumerate(xs)):
            return sl(b, i0, add(i0, I(len(xs))))
    return raw('arr', *xs)

def site(c, a, b):
    """conditional segment list"""
    if a.op != 'seq': a = raw('seq', a)
    if b.op != 'seq': b = raw('seq', b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': c, a, b = c.args[0], b, a
    if RESTS and c.op in ('ext', 'and'): a = afterprefix(c, a)
    if SPLITN and any(x.op == 'eq0' for x in conj(c)): a = assume(a, [c])
    if a.op == 'seq' and b.op == 'seq' and a.args and b.args and a.args[0] is b.args[0]:
        return seq(a.args[0], site(c, seq(*a.args[1:]), seq(*b.args[1:])))
    # `x != 0` around a repetition that has no element at x = 0
    for g, e, r in ((c, a, b), (not_(c), b, a)):
        if g.op == 'eq0' and e is EMPTY and len(r.args) == 1 and r.args[0].op in ('rep', 'G') and nonneg(g.args[0]): x = g.args[0]
        elif g.op == 'ge0' and e is EMPTY and len(r.args) == 1 and r.args[0].op in ('rep', 'G'): x = neg(g.args[0])     # x <= 0
        else: continue
        n = r.args[0].args[1]
        if n is not INF and n.op == 'pos' and nonneg(sub(x, n.args[0])): return r
    # nested guards on an empty alternative
    if b is EMPTY and a.op == 'seq' and len(a.args) == 1 and a.args[0].op == 'site' and a.args[0].args[2] is EMPTY:
        return site(and_(c, a.args[0].args[0]), a.args[0].args[1], EMPTY)
    if b is EMPTY and a.op == 'seq' and len(a.args) == 1 and a.args[0].op == 'site' and a.args[0].args[1] is EMPTY:
        return site(and_(c, not_(a.args[0].args[0])), a.args[0].args[2], EMPTY)
    if a is EMPTY and b.op == 'seq' and len(b.args) == 1 and b.args[0].op == 'site' and b.args[0].args[2] is EMPTY:
        return site(and_(not_(c), b.args[0].args[0]), b.args[0].args[1], EMPTY)
    if a is EMPTY and b.op == 'seq' and len(b.args) == 1 and b.args[0].op == 'site' and b.args[0].args[1] is EMPTY:
        return site(and_(not_(c), not_(b.args[0].args[0])), b.args[0].args[2], EMPTY)
    if a is EMPTY: c, a, b = not_(c), b, a
    if a.op == 'seq' and b.op == 'seq' and len(a.args) == 1 and len(b.args) == 1 and a.args[0].op == 'one' and b.args[0].op == 'one':
        return seq(one(ite(c, a.args[0].args[0], b.args[0].args[0])))
    return raw('seq', raw('site', c, a, b))

def bound_of(c, bv):
    """k when c is  bv < k  with k free of bv"""
    if c.op == 'ge0' and _mono(c.args[0]).get((bv,), 0) == -1:
        k = add(c.args[0], bv, I(1))
        if bv not in k.fv and nonneg(k): return k
    return None
def atleast(c, bv):
    """k when c is  bv >= k  with k free of bv"""
    if c.op == 'ge0' and _mono(c.args[0]).get((bv,), 0) == 1:
        k = sub(bv, c.args[0])
        if bv not in k.fv: return k
def fits(bv, n, t):
    """t for bv < n: a conversion that keeps every such bv is the identity"""
    if n is INF or bv not in t.fv: return t
    d = {}
    for x in walk(t):
        if x.op == 'trunc' and x.args[1] is bv and nonneg(sub(I(1 << BITS[x.args[0]] - (x.args[0][0] == 'i')), n)): d[x] = bv
    return substany(t, d) if d else t
def segite(s):
    """a choice between two sequences, as a segment"""
    q = lambda x: segite(x) if x.op == 'ite' else seq(x)
    r = site(s.args[0], q(s.args[1]), q(s.args[2]))
    return r if r.op == 'seq' else raw('seq', r)
def subst_idx(t, e, x): return substany(t, {e: x})
def fused(bv, n, body, at):
    """for bv in 0..len(F): body(F[bv])  over a filtered sequence F: the loops are one"""
    if n is INF or n.op != 'len' or n.args[0].op != 'seq' or len(n.args[0].args) != 1 or n.args[0].args[0].op != 'G': return None
    F = n.args[0]; e = raw('idx', F, bv)
    if bv in substany(body, {e: I(0)}).fv: return None
    def go(q):
        out = []
        for s in q.args:
            if s.op == 'one': out.append(at(e, s.args[0]))
            elif s.op == 'site':
                a, b = go(s.args[1]), go(s.args[2])
                if a is None or b is None: return None
                out.append(site(s.args[0], a, b))
            elif s.op == 'G':
                a = go(s.args[2])
                if a is None: return None
                out.append(G(s.args[0], s.args[1], a))
            else: return None
        return seq(*out) if len(out) != 1 else out[0] if out[0].op == 'seq' else raw('seq', out[0])
    return go(F)
def fused_all(bv, n, body):
    if n is INF or n.op != 'len' or n.args[0].op != 'seq' or len(n.args[0].args) != 1 or n.args[0].args[0].op != 'G': return None
    F = n.args[0]; e = raw('idx', F, bv)
    if bv in substany(body, {e: I(0)}).fv: return None
    def go(q):
        out = []
        for s in q.args:
            if s.op == 'one': out.append(substany(body, {e: s.args[0]}))
            elif s.op == 'site':
                a, b = go(s.args[1]), go(s.args[2])
                if a is None or b is None: return None
                out.append(and_(or_(not_(s.args[0]), a), or_(s.args[0], b)))
            elif s.op == 'G':
                a = go(s.args[2])
                if a is None: return None
                out.append(all_(s.args[0], s.args[1], a))
            else: return None
        return and_(*out)
    return go(F)
def G(bv, n, body):
    """for bv in 0..n: body(bv), concatenated"""
    if body.op == 'ite': body = segite(body)
    elif body.op != 'seq': body = raw('seq', body)
    if n.op == 'pos': n = n.args[0]          # an iteration count below zero is zero
    body = fits(bv, n, body)
    f = fused(bv, n, body, lambda e, x: subst_idx(body, e, x))
    if f is not None: return f
    if len(body.args) == 1 and body.args[0].op == 'site' and body.args[0].args[2] is EMPTY and n is not INF:
        cs = conj(body.args[0].args[0])
        for c in cs:
            k = bound_of(c, bv)
            if k is not None:
                return G(bv, mnt(n, k), site(and_(*[x for x in cs if x is not c]), body.args[0].args[1], EMPTY))
    # for i in 0..len(x): [x[i]]   ->  x
    if len(body.args) == 1 and body.args[0].op == 'one':
        e = body.args[0].args[0]
        if e.op == 'idx' and e.args[1] is bv and bv not in e.args[0].fv:
            if n is ln(e.args[0]): return e.args[0]
            return sl(e.args[0], I(0), n)
        if e.op == 'idx' and bv not in e.args[0].fv and bv in e.args[1].fv:
            d = sub(e.args[1], bv)
            if bv not in d.fv: return sl(e.args[0], d, add(d, n))
        if bv not in e.fv: return rep(e, n)
    e = encs(body, bv, n)
    if e is not None: return e
    k = cst(n)
    if k is not None and 0 < k <= 16 and picks(body, bv): return seq(*[subst(body, {bv: I(i)}) for i in range(k)])
    return raw('seq', raw('G', bv, n, body))
def picks(t, bv):
    """t selects from a literal list by bv"""
    return any(x.op == 'ext' and x.args[0] == 'charcode' and x.args[1].op == 'str' and len(x.args) > 2 and bv in x.args[2].fv or x.op == 'idx' and bv in x.args[1].fv and (x.args[0].op == 'arr' or x.args[0].op == 'seq' and all(y.op == 'one' for y in x.args[0].args)) for x in walk(t) if bv in x.fv)

def rep(v, n):
    k = cst(n)
    return raw('rep', v, n)

def ln(t):
    o = t.op
    if o == 'seq': return add(*[seglen(s) for s in t.args])
    if o == 'arr': return I(len(t.args))
    if o == 'sl': return sub(t.args[2], t.args[1])
    if o == 'rep': return t.args[1]
    if o == 'str': return I(len(t.args[0].encode()))
    if o == 'bytes': return I(len(t.args[0]))
    if o == 'ite': return ite(t.args[0], ln(t.args[1]), ln(t.args[2]))
    if o == 'enc': return I(t.args[1])
    if o == 'wr': return ln(t.args[0])
    if o == 'upd': return ln(t.args[0])
    if o == 'ext' and t.args[0] in FIXED_LEN: return I(FIXED_LEN[t.args[0]])
    if o == 'ext' and t.args[0] == 'matches' and t.args[2].op == 'str' and t.args[2].args[0]: return sub(ln(ext('split', *t.args[1:])), I(1))
    if o == 'ext' and t.args[0] == 'splitn' and cst(t.args[2]): return mnt(t.args[2], ln(ext('split', t.args[1], t.args[3])))
    if o == 'ext' and t.args[0] == 'encrypt': return add(ln(t.args[3]), I(16))
    if o == 'ext' and t.args[0] == 'keystream': return ln(t.args[2])
    if o == 'rnd' and t.args[1].op == 'int': return t.args[1]
    if o == 'map': return raw('len', t)
    if o == 'cat': return add(*[ln(x) for x in t.args])
    if o == 'ext' and t.args[0] == 'repeat' and t.args[1].op == 'str': return mul(ln(t.args[1]), t.args[2])
    if o == 'bot': return BOT
    if o == 'sym' and t in LEN: return LEN[t]
    if o == 'muat' and t.args[0].args[1][t.args[0].args[0]] in LEN: return ln(t.args[0].args[2][t.args[0].args[0]])   # every iteration keeps the length
    if o == 'fld' and t.args[1] == '0' and t.args[0].op == 'idx' and t.args[0].args[0].op == 'ext' and t.args[0].args[0].args[0] == 'objentries+':
        return add(I(1), raw('len', raw('tail', t)))        # keys assumed not to be empty
    return raw('len', t)
FIXED_LEN = {}
LEN = {}

def seglen(s):
    if s.op == 'one': return I(1)
    if s.op == 'G':
        l = ln(s.args[2])
        if s.args[0] not in l.fv: return mul(mnt_pos(s.args[1]), l)
        return raw('len', raw('seq', s))
    if s.op == 'site':
        a, b = ln(s.args[1]), ln(s.args[2])
        return ite(s.args[0], a, b)
    return ln(s)

def sl(b, lo, hi):
    if lo is I(0) and hi is ln(b): return b
    if b.op == 'sl': return sl(b.args[0], add(b.args[1], lo), add(b.args[1], hi))
    if b.op == 'ite': return ite(b.args[0], sl(b.args[1], lo, hi), sl(b.args[2], lo, hi))
    if b.op == 'bytes' and cst(lo) is not None and cst(hi) is not None: return raw('bytes', b.args[0][cst(lo):cst(hi)])
    if b.op == 'arr' and cst(lo) is not None and cst(hi) is not None: return raw('arr', *b.args[cst(lo):cst(hi)])
    if b.op == 'rep': return rep(b.args[0], sub(hi, lo))
    if b.op == 'seq':
        pos = I(0); start = None; acc = []
        for s in list(b.args) + [None]:
            if pos is lo and start is None: start = True
            if start and pos is hi: return seq(*acc)
            if s is None: break
            nxt = add(pos, seglen(s))
            if start:
                d = sub(hi, pos); k = sub(nxt, hi)
                # hi falls inside this segment
                if s.op not in ('one', 'G', 'site') and nonneg(sub(k, I(1))) and nonneg(d):
                    return seq(*acc, sl(s, I(0), d))
                acc.append(s)
            else:
                d = sub(lo, pos); k = sub(nxt, lo)
                if s.op not in ('one', 'G', 'site') and positive(d) and nonneg(k) and not (k is I(0)):
                    start = True
                    if nonneg(sub(nxt, hi)): return sl(s, d, sub(hi, pos))
                    acc.append(sl(s, d, seglen(s)))
            pos = nxt
    if b.op == 'wr':
        # reading exactly one written window
        r = _wr_read(b, lo, hi)
        if r is not None: return r
    return raw('sl', b, lo, hi)

SPLITN = set()
def idx(b, i):
    if b.op == 'sl': return idx(b.args[0], add(b.args[1], i))
    if b.op == 'ite': return ite(b.args[0], idx(b.args[1], i), idx(b.args[2], i))
    k = cst(i)
    if b.op == 'arr' and k is not None and 0 <= k < len(b.args): return b.args[k]
    if b.op == 'bytes' and k is not None and 0 <= k < len(b.args[0]): return I(b.args[0][k])
    if b.op == 'rep': return b.args[0]
    if b.op == 'ext' and b.args[0] == 'splitn' and k is not None and cst(b.args[2]) is not None and k < cst(b.args[2]):
        p = ext('split', b.args[1], b.args[3]); SPLITN.add(b)
        return idx(p, i) if k < cst(b.args[2]) - 1 else ite(ge(ln(p), add(b.args[2], I(1))), raw('idx', b, i), idx(p, i))
    if b.op == 'seq':
        pos = I(0)
        if len(b.args) == 1 and b.args[0].op == 'site':
            # the element exists, so the branch without elements is not taken
            y = [x for x in b.args[0].args[1:] if ln(x) is not I(0)]
            if len(y) == 1: return idx(y[0], i)
        for s in b.args:
            if s.op == 'one' and pos is i: return s.args[0]
            if s.op == 'G' and len(s.args[2].args) == 1 and s.args[2].args[0].op == 'one':
                d = sub(i, pos)
                if nonneg(d) and (nonneg(sub(sub(s.args[1], d), I(1))) or d.op == 'sym' or len(b.args) == 1):
                    return subst(s.args[2].args[0].args[0], {s.args[0]: d})
            if s.op == 'site' and k is not None and cst(pos) is not None:
                # a choice of short lists in front of a constant position
                la, lb = cst(ln(s.args[1])), cst(ln(s.args[2]))
                if la is not None and lb is not None and 0 < max(la, lb) <= 8 and k < cst(pos) + max(la, lb) and ln(b) is not None:
                    rest = b.args[b.args.index(s) + 1:]
                    return ite(s.args[0], idx(seq(s.args[1], *rest), sub(i, pos)), idx(seq(s.args[2], *rest), sub(i, pos)))
            if s.op not in ('one', 'G', 'site'):
                d = sub(i, pos)
                if len(b.args) == 1 or nonneg(d) and nonneg(sub(sub(ln(s), d), I(1))): return idx(s, d)
            pos = add(pos, seglen(s))
    return raw('idx', b, i)

def upd(b, i, v):
    if b.op == 'arr' and cst(i) is not None and 0 <= cst(i) < len(b.args):
        l = list(b.args); l[cst(i)] = v
        return raw('arr', *l)
    return write(b, i, seq(one(v)))

# writes into a buffer of fixed length
def write(b, off, src):
    """b with b[off..off+len(src)] replaced by src"""
    n = ln(src)
    base, ws = (b.args[0], list(b.args[1])) if b.op == 'wr' else (b, [])
    if n is I(0): return b
    if off is I(0) and n is ln(base): return src
    ws = [(o, s) for (o, s) in ws if not (o is off and ln(s) is n)]
    ws.append((off, src))
    return norm_wr(base, ws)

def norm_wr(base, ws):
    total = ln(base)
    if base.op in ('rep', 'seq') and cst(total) is not None and all(cst(o) is not None and cst(ln(s)) is not None for o, s in ws):
        # constant places in a constant buffer: the rest of it keeps its value
        l = sorted(ws, key=lambda w: cst(w[0])); out = []; pos = 0
        for o, s in l:
            if cst(o) < pos: break
            out += [sl(base, I(pos), o), s]; pos = cst(o) + cst(ln(s))
        else:
            if pos <= cst(total):
                out.append(sl(base, I(pos), total))
                if not any(x.op == 'sl' and x.args[0] is base for x in out): return seq(*out)
    # try to chain the writes from offset 0 to the end, filling the gaps from the base
    left = list(ws); pos = I(0); out = []
    ok = True
    while True:
        if pos is total and not left:
            return seq(*out)
        hit = [w for w in left if w[0] is pos]
        if len(hit) == 1:
            out.append(hit[0][1]); left.remove(hit[0]); pos = add(pos, ln(hit[0][1])); continue
        if len(hit) > 1: break
        if not left:
            if base.op == 'rep' and nonneg(sub(total, pos)):
                out.append(rep(base.args[0], sub(total, pos))); return seq(*out) if False else _wrraw(base, ws)
            break
        break
    return _wrraw(base, ws)

def _wrraw(base, ws):
    # a window that covers whole segments of the base takes their place
    if base.op == 'seq' and len(ws) == 1:
        pos, cut = I(0), None
        for k, s in enumerate(base.args):
            if pos is ws[0][0]: cut = k
            pos = add(pos, seglen(s))
            if cut is not None and pos is add(ws[0][0], ln(ws[0][1])): return seq(*base.args[:cut], ws[0][1], *base.args[k + 1:])
    # order non-overlapping writes canonically (increasing offset where provable)
    ws = list(ws)
    for i in range(len(ws)):
        for j in range(len(ws) - 1):
            (o1, s1), (o2, s2) = ws[j], ws[j + 1]
            if positive(sub(o1, o2)) and nonneg(sub(o1, add(o2, ln(s2)))): ws[j], ws[j + 1] = ws[j + 1], ws[j]
    # merge adjacent windows
    k = 0
    while k + 1 < len(ws):
        (o1, s1), (o2, s2) = ws[k], ws[k + 1]
        if o2 is add(o1, ln(s1)):
            ws[k:k + 2] = [(o1, seq(s1, s2))]
        else: k += 1
    return raw('wr', base, tuple(ws))

def _wr_read(b, lo, hi):
    for (o, s) in reversed(b.args[1]):
        d0, d1 = sub(lo, o), sub(add(o, ln(s)), hi)
        if nonneg(d0) and nonneg(d1): return sl(s, d0, sub(hi, o))
        if nonneg(sub(lo, add(o, ln(s)))) or nonneg(sub(o, hi)): continue
        return None
    return sl(b.args[0], lo, hi)

# ---------------------------------------------------------------- maps: an insertion log
def mapt(log):
    if log.op == 'ext' and log.args[0] == 'entries': return log.args[1]   # all entries of a map, put into an empty one
    if log.op == 'seq' and len(log.args) == 1 and log.args[0].op == 'ext' and log.args[0].args[0] == 'entries': return log.args[0].args[1]
    return raw('map', log)
def logof(m): return m.args[0] if m.op == 'map' else raw('logof', m)
def minsert(m, k, v): return mapt(seq(logof(m), one(tup(k, v))))
def mget(m, k):
    if m.op == 'map' and m.args[0] is EMPTY: return NONE
    if m.op == 'ite': return ite(m.args[0], mget(m.args[1], k), mget(m.args[2], k))
    # the value stored under the key of one of the map's own entries
    if k.op == 'fld' and k.args[1] == '0' and k.args[0].op == 'idx':
        e = k.args[0].args[0]
        if e.op == 'ext' and e.args[0] == 'entries' and e.args[1] is m: return var('Some', fld(k.args[0], '1'))
    if above(k, m): return NONE
    return raw('get', m, k)
def above(k, m):
    """k is larger than every key of m"""
    for mm, c in _mono(k).items():
        if c != 1 or len(mm) != 1: continue
        x = mm[0].args[0] if mm[0].op == 'pos' else mm[0]
        if x.op != 'ext' or x.args[0] != 'maxof': continue
        g = x.args[1]
        if g.op == 'seq' and len(g.args) == 1 : g = g.args[0]
        if g.op != 'G': continue
        b = g.args[2]
        if b.op == 'seq' and len(b.args) == 1: b = b.args[0]
        if b.op == 'one' and b.args[0].op == 'fld' and b.args[0].args[1] == '0' and b.args[0].args[0].op == 'idx' and b.args[0].args[0].args[1] is g.args[0]:
            e = b.args[0].args[0].args[0]
            if e.op == 'ext' and e.args[0] == 'entries' and g.args[1] is ln(e) and (e.args[1] is m or same0(e.args[1], m)):
                d = sub(k, mm[0])
                if nonneg(sub(d, I(1))): return True
    return False

# ---------------------------------------------------------------- integers <-> bytes
def num(endian, n, b):
    if b.op == 'arr' and all(x.op == 'int' for x in b.args):
        return I(int.from_bytes(bytes(x.args[0] for x in b.args), 'little' if endian == 'le' else 'big'))
    if b.op == 'bytes': return I(int.from_bytes(b.args[0], 'little' if endian == 'le' else 'big'))
    if b.op == 'enc' and b.args[0] == endian and b.args[1] == n:
        return b.args[2]
    if n == 1: return idx(b, I(0))
    return raw('num', endian, n, b)
def enc(endian, n, v):
    k = cst(v)
    if k is not None and k >= 0:
        return raw('bytes', int(k % (1 << 8 * n)).to_bytes(n, 'little' if endian == 'le' else 'big'))
    return raw('enc', endian, n, v)
def bytes_poly(p, byte=lambda x: True):
    """sum of 256^i * b[..] in a row  ->  the number those bytes encode"""
    if p.op != 'poly': return p
    d = {}
    for m, c in p.args:
        if len(m) != 1 or c <= 0 or c & (c - 1) or (c.bit_length() - 1) % 8: return p
        k = (c.bit_length() - 1) // 8
        if m[0].op == 'idx' and byte(m[0]): ms = [m[0]]
        elif m[0].op == 'num' and m[0].args[2].op == 'sl':
            en, n, b = m[0].args
            ms = [idx(b.args[0], add(b.args[1], I(i))) for i in range(n)]
            if en == 'be': ms.reverse()
        else: return p
        for i, x in enumerate(ms):
            if k + i in d or x.op != 'idx': return p
            d[k + i] = x
    n = len(d)
    if n not in (2, 4, 8) or sorted(d) != list(range(n)) or len({x.args[0] for x in d.values()}) != 1: return p
    b = d[0].args[0]
    if all(d[i].args[1] is add(d[0].args[1], I(i)) for i in range(n)): return num('le', n, sl(b, d[0].args[1], add(d[0].args[1], I(n))))
    if all(d[n - 1 - i].args[1] is add(d[n - 1].args[1], I(i)) for i in range(n)): return num('be', n, sl(b, d[n - 1].args[1], add(d[n - 1].args[1], I(n))))
    return p
def bitfields(t, byte=lambda x: True):
    """the bit ranges that the parts of a sum occupy, or None"""
    out = []
    for mm, c in _mono(t).items():
        if len(mm) != 1 or c <= 0 or c & (c - 1): return None
        k = c.bit_length() - 1
        x = mm[0]
        w = 8 if x.op == 'idx' and byte(x) else x.args[1] * 8 if x.op == 'num' else x.args[2] if x.op == 'limb' else None
        if w is None: return None
        out.append((k, k + w))
    return out
def disjoint(a, b, byte=lambda x: True):
    """a and b have no bit in common"""
    x, y = bitfields(a, byte), bitfields(b, byte)
    if x is None or y is None: return False
    return all(p[1] <= q[0] or q[1] <= p[0] for p in x for q in y)
def bor(a, b):
    if a is I(0) or b is I(0): return a if b is I(0) else b
    if disjoint(a, b, isbyte): return bytes_poly(add(a, b), isbyte)
    return raw('bor', *sorted((a, b), key=lambda x: x.id))
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
def trunc(ty, t):
    k = cst(t)
    if k is not None:
        n = BITS[ty]; v = k % (1 << n)
        if ty[0] == 'i' and v >= 1 << (n - 1): v -= 1 << n
        return I(v)
    if t.op == 'num' and t.args[1] * 8 <= BITS[ty] - (ty[0] == 'i'): return t
    if t.op == 'poly' and ty[0] == 'u':
        f = bitfields(t, isbyte)
        if f and all(y <= BITS[ty] for _, y in f): return t
    if t.op == 'ite': return ite(t.args[0], trunc(ty, t.args[1]), trunc(ty, t.args[2]))
    return raw('trunc', ty, t)

# ---------------------------------------------------------------- strings
def cat(*ps):
    out = []
    for p in ps:
        if p.op == 'cat': out.extend(p.args)
        elif p.op == 'str' and p.args[0] == '': continue
        else: out.append(p)
    m = []
    for p in out:
        if m and p.op == 'str' and m[-1].op == 'str': m[-1] = S(m[-1].args[0] + p.args[0])
        else: m.append(p)
    if not m: return S('')
    if len(m) == 1: return m[0]
    return raw('cat', *m)
def charcode(s, *i):
    k = cst(i[0]) if i else None
    if k is not None and s.op == 'str' and 0 <= k < len(s.args[0]): return I(ord(s.args[0][k]))
    return ext('charcode', s, *i)
def tostr(t):
    if t.op in ('str', 'cat', 'tostr'): return t
    if t.op == 'int': return S(str(t.args[0]))
    if t.op == 'ite': return ite(t.args[0], tostr(t.args[1]), tostr(t.args[2]))
    return raw('tostr', t)

# ---------------------------------------------------------------- quantifiers and loops
def inrange(c, p):
    """c where p >= 0"""
    if c.op == 'ge0':
        if nonneg(sub(c.args[0], p)): return TRUE
        if nonneg(sub(sub(neg(c.args[0]), I(1)), p)): return FALSE
        return c
    if c.op == 'eq0' and (positive(sub(c.args[0], p)) or positive(sub(neg(c.args[0]), p))): return FALSE
    if c.op in ('and', 'or') and any(x.op in ('ge0', 'eq0', 'and', 'or') for x in c.args):
        k = [inrange(x, p) for x in c.args]
        if any(x is not y for x, y in zip(k, c.args)): return and_(*k) if c.op == 'and' else or_(*k)
    return c
def all_(bv, n, c):
    if n.op == 'pos': n = n.args[0]
    if c is TRUE: return TRUE
    if cst(n) == 0: return TRUE
    c = fits(bv, n, c)
    f = fused_all(bv, n, c)
    if f is not None: return f
    if n is not INF: c = inrange(c, sub(sub(n, bv), I(1)))
    if c is TRUE: return TRUE
    if c.op == 'and': return and_(*[all_(bv, n, x) for x in c.args])
    if c.op == 'or' and n is not INF:
        for x in c.args:
            k = bound_of(not_(x), bv)
            if k is not None: return all_(bv, mnt(n, k), or_(*[y for y in c.args if y is not x]))
    if bv not in c.fv:
        return or_(not_(ge0(add(n, I(-1)))), c)
    if n is not INF and cst(n) is not None and cst(n) <= 4: return and_(*[subst(c, {bv: I(j)}) for j in range(cst(n))])
    return raw('all', bv, n, c)
def brkn(bv, n, c):
    """index of the first iteration whose break condition holds (n when none does; n may be INF)"""
    if c is FALSE: return n
    if c is TRUE: return I(0)
    if n is not INF and bv not in c.fv and not n.unk: return ite(c, I(0), n)
    if c.op == 'ge0' and bv in c.args[0].fv:
        # first bv with  a*bv + r >= 0 ; a==1:  -r  (if that is known to be >= 0)
        m = _mono(c.args[0]); a = m.get((bv,), 0)
        if a == 1:
            d = sub(bv, c.args[0])
            if bv not in d.fv and nonneg(d):
                return d if n is INF or d is n else mnt(n, d)
            elif bv not in d.fv and n is INF: return mnt_pos(d)
    if c.op == 'eq0' and n is INF:
        # the first bv with  bv == d
        a = _mono(c.args[0]).get((bv,), 0)
        if a in (1, -1):
            d = sub(bv, c.args[0] if a == 1 else neg(c.args[0]))
            if bv not in d.fv and nonneg(d): return d
    if c.op == 'ge0' and n is INF:
        # the first bv with  trunc(bv) >= k  is k when k fits the type
        q, k0 = linear(c.args[0])
        for mm, cc in _mono(q).items():
            if cc == 1 and len(mm) == 1 and mm[0].op == 'trunc' and mm[0].args[1] is bv:
                d = sub(mm[0], c.args[0])
                if bv not in d.fv and nonneg(d) and nonneg(sub(I((1 << BITS[mm[0].args[0]] - (mm[0].args[0][0] == 'i')) - 1), d)): return d
    if n is INF and c.op == 'or':
        # bv >= d || rest  stops within the first d iterations
        for x in c.args:
            k = atleast(x, bv)
            if k is not None: return brkn(bv, mnt_pos(k), or_(*[y for y in c.args if y is not x]))
    if n is not INF and n.op == 'pos' and any(x.op == 'ext' and x.args[0] == 'maxof' for x in walk(n)) and settled([subst(c, {bv: n})])[0] is TRUE: return brkn(bv, INF, c)
    return raw('brkn', bv, n, c)
# bit fields of a number: limb(v, s, w) = floor(v / 2^s) mod 2^w
def shr(v, k):
    """floor(v / 2^k)"""
    if k is I(0): return v
    if cst(v) is not None and cst(k) is not None: return I(cst(v) >> cst(k))
    if cst(v) == 0: return v
    if v.op == 'shr': return shr(v.args[0], add(v.args[1], k))
    if v.op == 'ite': return ite(v.args[0], shr(v.args[1], k), shr(v.args[2], k))
    if cst(k) is not None and nonneg(v) and nonneg(sub(I((1 << cst(k)) - 1), v)): return I(0)
    return raw('shr', v, k)
def limb(v, s, w):
    if v.op == 'shr': return limb(v.args[0], add(v.args[1], s), w)
    if cst(v) is not None and cst(s) is not None: return I((cst(v) >> cst(s)) % (1 << w))
    if v.op == 'limb' and cst(s) == 0 and v.args[2] <= w: return v
    if v.op == 'limb' and cst(s) is not None and cst(s) + w <= v.args[2]: return limb(v.args[0], add(v.args[1], s), w)
    if v.op == 'trunc' and cst(s) is not None and cst(s) + w <= BITS[v.args[0]]: return limb(v.args[1], s, w)
    if v.op == 'ite': return ite(v.args[0], limb(v.args[1], s, w), limb(v.args[2], s, w))
    if v.op == 'num' and w == 8 and cst(s) is not None and cst(s) % 8 == 0:
        i = cst(s) // 8
        return idx(v.args[2], I(i if v.args[0] == 'le' else v.args[1] - 1 - i)) if i < v.args[1] else I(0)
    if s is I(0) and nonneg(v) and nonneg(sub(I((1 << w) - 1), v)): return v
    return raw('limb', v, s, w)
def fmod(v, p):
    """the representative of v in 0..p"""
    if cst(v) is not None and cst(p): return I(cst(v) % cst(p))
    if v.op == 'fmod' and v.args[1] is p: return v
    if cst(p) is not None and cst(p) > 1 and cst(p) & (cst(p) - 1) == 0: return limb(v, I(0), cst(p).bit_length() - 1)
    return raw('fmod', v, p)
def srem(a, b):
    """remainder with the sign of the dividend"""
    x, y = cst(a), cst(b)
    if x is not None and y: return I((abs(x) % abs(y)) * (1 if x >= 0 else -1))
    if a.op == 'fmod' and a.args[1] is b: return a
    if nonneg(a) and nonneg(b): return fmod(a, b)
    if a.op == 'poly':
        # (v % p + p) % p
        r = sub(a, b)
        if r.op == 'srem' and r.args[1] is b: return fmod(r.args[0], b)
    if a.op == 'srem' and a.args[1] is b: return a
    return raw('srem', a, b)
_REB.update(bor=bor, shr=shr, limb=limb, fmod=fmod, srem=srem)
def encs(body, bv, n):
    """the bytes of consecutive bit fields of one number"""
    k = cst(n)
    if k is None or len(body.args) != 1: return None
    e = body.args[0]
    if e.op == 'one': e, w = e.args[0], 1
    elif e.op == 'enc' and e.args[0] == 'le': e, w = e.args[2], e.args[1]
    else: return None
    if e.op != 'limb' or e.args[2] != 8 * w or bv in e.args[0].fv: return None
    if e.args[1] is mul(bv, I(8 * w)): return enc('le', k * w, e.args[0])
    if w == 1 and e.args[1] is sub(I(8 * (k - 1)), mul(bv, I(8))): return enc('be', k, e.args[0])
    return None
INF = raw('inf')
def mnt_pos(n):
    """max(n, 0) of an iteration count"""
    if n is INF: return n
    c = ge0(n)
    if c is TRUE: return n
    if c is FALSE or nonneg(neg(n)): return I(0)
    return raw('pos', n)
def mnt(a, b):
    if a is b: return a
    if nonneg(sub(b, a)): return a
    if nonneg(sub(a, b)): return b
    x, y = sorted((a, b), key=lambda t: t.id)
    return raw('min', x, y)

def under(c, v):
    """v, of which only the values where c holds matter (unreachable alternatives are don't-cares)"""
    if v.op != 'ite' or c is TRUE or c is FALSE: return v
    return raw('under', c, v)
# mu(which, syms, inits, upds, bv): a system of recurrences; muat(mu, k): value of variable `which` before iteration k
def mu(which, syms, inits, upds, bv):
    return raw('mu', which, tuple(syms), tuple(inits), tuple(upds), bv)
def muat(m, k):
    n = cst(k)
    if n == 0: return m.args[2][m.args[0]]
    if n is not None and n <= 8 and m.op == 'mu' and len(m.args) >= 5:
        which, syms, inits, upds, bv = m.args[:5]; vals = list(inits)
        for j in range(n):
            e = dict(zip(syms, vals)); e[bv] = I(j)
            vals = [subst(u, e) for u in upds]
        return vals[which]
    return raw('muat', m, k)

# ---------------------------------------------------------------- substitution
def rebuild(t, f):
    if FUEL[0] is not None: burn()
    o, a = t.op, t.args
    if o == 'poly':
        r = I(0)
        for m, c in a:
            p = I(c)
            for x in m: p = mul(p, f(x))
            r = add(r, p)
        return r
    if o == 'ge0': return ge0(f(a[0]))
    if o == 'eq0': return eq(f(a[0]), I(0))
    if o == 'eq': return eq(f(a[0]), f(a[1]))
    if o == 'ge': return ge(f(a[0]), f(a[1]))
    if o == 'lt': return lt(f(a[0]), f(a[1]))
    if o == 'not': return not_(f(a[0]))
    if o == 'and': return and_(*[f(x) for x in a])
    if o == 'or': return or_(*[f(x) for x in a])
    if o == 'ite':
        c = f(a[0])
        if c is TRUE: return f(a[1])
        if c is FALSE: return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if o == 'var': return var(a[0], *[f(x) for x in a[1]])
    if o == 'adt': return raw('adt', a[0], tuple((n, f(x)) for n, x in a[1]))
    if o == 'with':
        r = f(a[0])
        for n, x in a[1]: r = setfld(r, n, f(x))
        return r
    if o == 'isv': return isv(f(a[0]), a[1])
    if o == 'pl': return pl(f(a[0]), a[1], a[2])
    if o == 'fld': return fld(f(a[0]), a[1])
    if o == 'seq': return seq(*[f(x) if x.op != 'one' else one(f(x.args[0])) for x in a])
    if o == 'one': return one(f(a[0]))
    if o == 'arr': return arr(*[f(x) for x in a])
    if o == 'site': return site(f(a[0]), f(a[1]), f(a[2]))
    if o == 'G': return G(f(a[0]), f(a[1]), f(a[2]))
    if o == 'rep': return rep(f(a[0]), f(a[1]))
    if o == 'len': return ln(f(a[0]))
    if o == 'sl': return sl(f(a[0]), f(a[1]), f(a[2]))
    if o == 'idx': return idx(f(a[0]), f(a[1]))
    if o == 'wr':
        r = f(a[0])
        for off, s in a[1]: r = write(r, f(off), f(s))
        return r
    if o == 'map': return mapt(f(a[0]))
    if o == 'logof': return logof(f(a[0]))
    if o == 'get': return mget(f(a[0]), f(a[1]))
    if o == 'num': return num(a[0], a[1], f(a[2]))
    if o == 'enc': return enc(a[0], a[1], f(a[2]))
    if o == 'trunc': return trunc(a[0], f(a[1]))
    if o == 'cat': return cat(*[f(x) for x in a])
    if o == 'tostr': return tostr(f(a[0]))
    if o == 'all': return all_(f(a[0]), f(a[1]), f(a[2]))
    if o == 'brkn': return brkn(f(a[0]), f(a[1]), f(a[2]))
    if o == 'under': return under(f(a[0]), f(a[1]))
    if o == 'muat': return muat(f(a[0]), f(a[1]))
    if o == 'min': return mnt(f(a[0]), f(a[1]))
    g = lambda x: f(x) if isinstance(x, T) else (tuple(g(y) for y in x) if isinstance(x, tuple) else x)
    h = _REB.get(o)
    if h is not None: return h(*[g(x) for x in a])
    if o == 'ext' and a[0] == 'charcode': return charcode(*[g(x) for x in a[1:]])
    if o == 'ext': return ext(*[g(x) for x in a])
    return raw(o, *[g(x) for x in a])

def subst(t, m):
    if not m: return t
    keys = frozenset(m); memo = {}
    def f(x):
        if x in m: return m[x]
        if not (x.fv & keys): return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f); memo[x] = r
        return r
    return f(t)

def substany(t, m):
    """substitution of arbitrary subterms"""
    memo = {}
    def f(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f); memo[x] = r
        return r
    return f(t)

def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        st.extend(_kids(x.args))

def conj(c): return list(c.args) if c.op == 'and' else ([] if c is TRUE else [c])

def units(facts, clauses):
    """unit propagation: the facts that follow from facts and disjunctive clauses"""
    facts = set(facts); neg_ = {not_(f) for f in facts}
    ch = True
    while ch:
        ch = False
        for c in list(clauses):
            left = [x for x in c.args if x not in neg_]
            if any(x in facts for x in c.args): clauses.remove(c); continue
            if len(left) == 1:
                clauses.remove(c); ch = True
                for y in conj(left[0]):
                    facts.add(y); neg_.add(not_(y))
                    if y.op == 'or': clauses.append(y)
    return facts

def _under(r, clauses):
    if r.op != 'and': return r
    lits = [y for y in r.args if y.op != 'or']
    k = [y for y in units(lits, list(clauses)) - set(lits) if y.op != 'or']
    if not k: return r
    return and_(*lits, *[assume(y, k) for y in r.args if y.op == 'or'])

def assume(t, conds):
    """simplify t knowing every condition in conds holds"""
    facts = [a for c in conds for a in conj(c)]
    clauses = [a for a in facts if a.op == 'or']
    if clauses: facts = list(units(facts, list(clauses)))
    m = {}
    for a in facts:
        m[a] = TRUE; m[not_(a)] = FALSE
    pts = {}
    for a in facts:
        if a.op == 'eq0': q, k = linear(a.args[0]); pts[q] = -k
    ges = [a for a in facts if a.op == 'ge0']
    vs = {a.args[0]: a.args[1] for a in facts if a.op == 'isv'}
    alls = [a for a in facts if a.op == 'all']
    memo = {}
    def f(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            if pts and x.op in ('ge0', 'eq0') and decided(x, pts) is not x: r = decided(x, pts)
            elif x.op == 'ge0' and any(_implies_lin(g, x) for g in ges): r = TRUE
            elif x.op == 'ge0' and any(nonneg(sub(sub(neg(x.args[0]), I(1)), g.args[0])) for g in ges): r = FALSE
            elif x.op == 'isv' and vs.get(x.args[0], x.args[1]) != x.args[1]: r = FALSE
            elif x.op in ('int', 'str', 'sym', 'arg', 'bool'): r = x
            elif x.op == 'G' and alls and any(a.args[1] is x.args[1] for a in alls):
                k = [subst(a.args[2], {a.args[0]: x.args[0]}) for a in alls if a.args[1] is x.args[1]]
                r = G(x.args[0], f(x.args[1]), assume(f(x.args[2]), k))
            elif x.op == 'ite' and clauses:
                c = f(x.args[0])
                if c is TRUE: r = f(x.args[1])
                elif c is FALSE: r = f(x.args[2])
                else: r = ite(c, assume(x.args[1], list(conds) + [c]), assume(x.args[2], list(conds) + [not_(c)]))
            else:
                r = rebuild(x, f)
                if r.op == 'pos' and ges:
                    g = ge0(r.args[0])
                    if g is TRUE or g.op == 'ge0' and any(_implies_lin(h, g) for h in ges): r = r.args[0]
                if r.op == 'min' and ges:
                    for u, v in (r.args, r.args[::-1]):
                        g = ge0(sub(v, u))
                        if g is TRUE or g in m and m[g] is TRUE or g.op == 'ge0' and any(_implies_lin(h, g) for h in ges): r = u; break
                if clauses and r.op == 'or' and any(y.op == 'and' for y in r.args): r = not_(_under(not_(r), clauses))
                if clauses and r.op == 'and' and any(y.op == 'or' for y in r.args):
                    r = _under(r, clauses)
            memo[x] = r
        return r
    return f(t)

# ---------------------------------------------------------------- canonical digest
NAMED0 = ('adt', 'var', 'const', 'fn', 'ctor'); NAMED = NAMED0 + ('isv', 'pl')
def shortname(n, k):
    return '::'.join(n.split('<')[0].split('::')[-k:])
def linear(p):
    """p as (q, c): a polynomial without constant term, and the constant"""
    m = dict(_mono(p)); c = m.pop((), 0)
    return mkpoly(m), c
class Canon:
    def __init__(self, th=None, rec=None): self.memo, self.th, self.rec = {}, th, rec
    def dg(self, t, env):
        if t.fv:
            k = (t, tuple(sorted((s.id, env[s]) for s in t.fv if s in env)))
        else: k = (t, ())
        r = self.memo.get(k)
        if r is None:
            if FUEL[0] is not None: burn()
            r = self._dg(t, env); self.memo[k] = r
        return r
    def h(self, *xs): return hashlib.sha1(repr(xs).encode()).hexdigest()[:20]
    def any(self, x, env):
        if isinstance(x, T): return self.dg(x, env)
        if isinstance(x, tuple): return tuple(self.any(y, env) for y in x)
        return x
    def _dg(self, t, env):
        o, a = t.op, t.args
        if o in NAMED and a and isinstance(a[0 if o in NAMED0 else 1], str):
            i = 0 if o in NAMED0 else 1
            a = a[:i] + (shortname(a[i], 1 if o in ('adt', 'ctor') else 2),) + a[i + 1:]
            return self.h(o, [self.any(x, env) for x in a])
        if o == 'sym':
            return ('bv%d' % env[t]) if t in env else 'free:' + a[0]
        if o in ('and', 'or', 'not', 'ite', 'site', 'under', 'ge', 'lt') or o == 'poly' and gated(t): return self.boolean(t, env)
        if o == 'poly':
            return self.h('poly', sorted((sorted(self.dg(x, env) for x in m), c) for m, c in a))
        if o in ('ge0', 'eq0') and (self.th is not None or self.rec is not None):
            q, c = linear(a[0]); n = neg(q); d, dn = _C.dg(q, env), _C.dg(n, env); flip = dn < d
            if flip: d, c = dn, -c
            if self.rec is not None: self.rec.setdefault(d, set()).update((-c, -c + 1) if o == 'eq0' else (-c + 1,) if flip else (-c,))
            elif d in self.th: return self.boolean(t, env)
        if o in ('eq',): return self.h('eq', sorted((self.dg(a[0], env), self.dg(a[1], env))))
        if o == 'eq0':
            x, y = self.dg(a[0], env), self.dg(neg(a[0]), env)
            return self.h('eq0', min(x, y))
        if o == 'min': return self.h('min', sorted((self.dg(a[0], env), self.dg(a[1], env))))
        if o in ('G', 'all', 'brkn', 'sum'):
            e = dict(env); e[a[0]] = len(env)
            return self.h(o, self.dg(a[1], env), self.dg(a[2], e))
        if o == 'mu':
            which, syms, inits, upds, bv = a[:5]
            # order the variables by a DFS from `which`
            order = []
            def visit(i):
                if i in order: return
                order.append(i)
                deps = [j for j, s in enumerate(syms) if s in upds[i].fv]
                # deterministic: in order of a name-free digest of the update with all phis identical
                e = dict(env); e[bv] = len(env)
                for s in syms: e[s] = -1
                deps.sort(key=lambda j: (self.h(self.dg(inits[j], env)), self.dg(upds[j], e)))
                for j in deps: visit(j)
            visit(which)
            e = dict(env); e[bv] = len(env)
            for k, i in enumerate(order): e[syms[i]] = len(env) + 1 + k
            return self.h('mu', [(self.dg(inits[i], env), self.dg(upds[i], e)) for i in order])
        return self.h(o, [self.any(x, env) for x in a])
    def boolean(self, t, env):
        """canonical decision diagram of a gate tree: ordered, reduced; leaves are the digests of the gated values"""
        D = DD(self, env)
        try:
            n = D.cond(mergeall(t)) if isbool(t) else D.term(t)
        except DDLimit:
            return self.h('ddset', self._setform(t, env))
        return D.hash(n)
    def quant(self, t, env):
        e = dict(env); e[t.args[0]] = len(env)
        return (self.dg(t.args[1], env), self.dg(t.args[2], e))
    def _setform(self, t, env):
        if t.op in ('and', 'or', 'not', 'ite'):
            return (t.op, sorted(repr(self._setform(x, env)) for x in t.args)) if t.op != 'ite' else (t.op, [self._setform(x, env) for x in t.args])
        if t.op == 'site': return (t.op, self.dg(t.args[0], env), [self.dg(x, env) for x in t.args[1:]])
        if t.op == 'poly': return self.h('gated', t.args[0][1], sorted(self.dg(x, env) for x in t.args[0][0]))
        return self.h('atom', t.op, self.any(t.args, env)) if t.op in ('all',) else self.dg(t, env)

def mergeall(t):
    """all(n, a) && all(n, b) -> all(n, a && b)"""
    if t.op not in ('and', 'or', 'not', 'ite') or not isbool(t): return t
    k = [mergeall(x) for x in t.args]
    if t.op == 'and':
        by = {}; rest = []
        for x in k:
            if x.op == 'all': by.setdefault(x.args[1], []).append(x)
            else: rest.append(x)
        for n, xs in by.items():
            if len(xs) == 1: rest.append(xs[0])
            else:
                bv = sym('i', True)
                rest.append(raw('all', bv, n, and_(*[subst(x.args[2], {x.args[0]: bv}) for x in xs])))
        return raw('and', *rest) if len(rest) > 1 else rest[0]
    if t.op == 'or':
        by = [x.args[0] for x in k if x.op == 'not' and x.args[0].op == 'all']
        if len(by) > 1:
            m = mergeall(raw('and', *by))
            rest = [x for x in k if not (x.op == 'not' and x.args[0].op == 'all')]
            n = raw('not', m) if m.op != 'and' else not_(m)
            if n.op == 'or': return raw('or', *rest, *n.args)
            return raw('or', *rest, n) if rest else n
    return raw(t.op, *k)

def gated(p):
    """the condition of a product with a factor that is 0 on one side"""
    if len(p.args) != 1: return None
    for x in p.args[0][0]:
        if x.op == 'ite' and (x.args[1] is I(0) or x.args[2] is I(0)): return x.args[0]
    return None
def liftable(t):
    """the condition of a gate inside constructor positions of t"""
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite': return x.args[0]
        if x.op == 'poly' and gated(x): return gated(x)
        if x.op in ('map', 'seq', 'one', 'tup', 'var', 'adt'): st.extend(list(_kids(x.args))[::-1])
    return None
def assume1(t, c, v):
    if t.op == 'ite':
        if t.args[0] is c: return t.args[1 if v else 2]
        return ite(t.args[0], assume1(t.args[1], c, v), assume1(t.args[2], c, v))
    if t.op == 'poly' and gated(t): return rebuild(t, lambda x: assume1(x, c, v))
    if t.op in ('map', 'seq', 'one', 'tup', 'var', 'adt'): return rebuild(t, lambda x: assume1(x, c, v)) if t.op != 'one' else one(assume1(t.args[0], c, v))
    return t
class DDLimit(Exception): pass
VARIANTS = {'Value': ['Null', 'Bool', 'Number', 'String', 'Array', 'Object']}
class DD:
    LIMIT = 20000
    def __init__(s, canon, env): s.c, s.env, s.tab, s.memo, s.dom, s.cnt, s.tm, s.lin = canon, env, {}, {}, {}, 0, {}, {}
    def leaf(s, x): return ('T', x)
    def node(s, v, kids):
        if all(k is kids[0] or k == kids[0] for k in kids): return kids[0]
        n = ('N', v, kids)
        r = s.tab.get(n)
        if r is None:
            s.cnt += 1
            if s.cnt > s.LIMIT: raise DDLimit()
            if FUEL[0] is not None: burn()
            r = s.tab[n] = n
        return r
    def linatom(s, x):
        """a linear atom as a predicate on one integer: all atoms about the same sum share a variable whose values are the intervals between their thresholds"""
        q, c = linear(x.args[0]); n = neg(q)
        dq, dn = _C.dg(q, s.env), _C.dg(n, s.env)
        flip = dn < dq
        if flip: q, dq, c = n, dn, -c
        # ge0: q+c >= 0 (q >= -c), flipped: -q-c >= 0 (q <= -c);  eq0: q = -c
        ks = (-c, -c + 1) if x.op == 'eq0' else (-c + 1,) if flip else (-c,)
        if s.c.rec is not None: s.c.rec.setdefault(dq, set()).update(ks)
        if s.c.th is None or dq not in s.c.th: return None
        ths = sorted(s.c.th[dq])
        if nonneg(q): ths = [k for k in ths if k > 0]
        if nonneg(neg(q)): ths = [k for k in ths if k <= 0]
        v = 'lin:' + dq; reps = [None] + ths     # interval i starts at reps[i]
        s.dom[v] = tuple(range(len(reps))); s.lin[v] = (q, reps)
        def holds(r):
            if x.op == 'eq0': return r is not None and r == -c or r is None and (nonneg(q) and -c == 0)
            k = ks[0]
            a = r is not None and r >= k or r is None and nonneg(q) and k <= 0
            return not a if flip else a
        return s.node(v, tuple(s.leaf(1 if holds(r) else 0) for r in reps))
    def atom(s, x):
        if x.op in ('ge0', 'eq0') and (s.c.th is not None or s.c.rec is not None):
            r = s.linatom(x)
            if r is not None: return r
        if x.op == 'isv' and x.args[1] not in ('Ok', 'Some'):
            nm = shortname(x.args[1], 2); en, _, vn = nm.rpartition('::')
            v = 'isv:' + s.c.dg(x.args[0], s.env)
            if v not in s.dom: s.dom[v] = s.domain(v, en)
            d = s.dom[v]
            if vn not in d: raise DDLimit()
            return s.node(v, tuple(s.leaf(1 if k == vn else 0) for k in d))
        d = s.c.dg(x, s.env) if x.op != 'all' else s.c.h('all', s.c.quant(x, s.env))
        nx = not_(x)
        dn = s.c.dg(nx, s.env) if nx.op != 'not' else None
        v, inv = (d, False) if dn is None or d <= dn else (dn, True)
        s.dom.setdefault(v, (0, 1))
        return s.node(v, (s.leaf(1), s.leaf(0)) if inv else (s.leaf(0), s.leaf(1)))
    def nanatom(s, x):
        """an order comparison of a number that may be NaN: one variable per quantity, with NaN as a value beside the intervals"""
        o, (a, b) = x.op, x.args
        if cst(b) is not None: q, k = a, cst(b)
        elif cst(a) is not None: q, k, o = b, cst(a) + 1, ('lt' if o == 'ge' else 'ge')
        else:
            v = 'nanp:' + s.c.dg(a, s.env) + s.c.dg(b, s.env)
            s.dom[v] = (0, 1, 2)
            return s.node(v, tuple(s.leaf(z) for z in ((0, 1, 0) if o == 'lt' else (0, 0, 1))))
        d = 'nan:' + _C.dg(q, s.env)
        if s.c.rec is not None: s.c.rec.setdefault(d, set()).add(k)
        ths = [k]
        if s.c.th is not None and d in s.c.th: ths = sorted(s.c.th[d])
        else: d += ':%d' % k
        s.dom[d] = tuple(range(len(ths) + 2))
        return s.node(d, (s.leaf(0),) + tuple(s.leaf(1 if (r is not None and r >= k) == (o == 'ge') else 0) for r in [None] + ths))
    def domain(s, v, en):
        if en in VARIANTS: return tuple(VARIANTS[en])
        raise DDLimit()
    def cof(s, n, v, i): return n[2][i] if n[0] == 'N' and n[1] == v else n
    def ite(s, f, g, h):
        if f == ('T', 1): return g
        if f == ('T', 0): return h
        if g is h or g == h: return g
        k = (id(f), id(g), id(h))
        r = s.memo.get(k)
        if r is None:
            v = min(x[1] for x in (f, g, h) if x[0] == 'N')
            r = s.node(v, tuple(s.ite(s.cof(f, v, i), s.cof(g, v, i), s.cof(h, v, i)) for i in range(len(s.dom[v]))))
            s.memo[k] = (r, f, g, h)
            return r
        return r[0]
    ZERO, ONE = ('T', 0), ('T', 1)
    def cond(s, t):
        r = s.memo.get(t)
        if r is None: r = s.memo[t] = s._cond(t)
        return r
    def _cond(s, t):
        o, a = t.op, t.args
        if t is TRUE: return s.ONE
        if t is FALSE: return s.ZERO
        if o == 'not': return s.ite(s.cond(a[0]), s.ZERO, s.ONE)
        if o == 'and':
            r = s.ONE
            for x in a: r = s.ite(s.cond(x), r, s.ZERO)
            return r
        if o == 'or':
            r = s.ZERO
            for x in a: r = s.ite(s.cond(x), s.ONE, r)
            return r
        if o == 'ite': return s.ite(s.cond(a[0]), s.cond(a[1]), s.cond(a[2]))
        if o in ('ge', 'lt'): return s.nanatom(t)
        if o == 'eq0':
            # a text that splits into two or more parts is not empty
            q, c = linear(a[0])
            if q.op == 'len' and q.args[0].op == 'ext' and q.args[0].args[0] == 'split' and len(q.args[0].args) == 3 and c <= -2:
                return s.ite(s.cond(ge0(add(ln(q.args[0].args[1]), I(-1)))), s.atom(t), s.ZERO)
        return s.atom(t)
    def term(s, t):
        r = s.tm.get(t)
        if r is None: r = s.tm[t] = s._term(t)
        return r
    def _term(s, t):
        o, a = t.op, t.args
        if o == 'ite': return s.ite(s.cond(mergeall(a[0])), s.term(a[1]), s.term(a[2]))
        if o == 'under': return s.ite(s.cond(mergeall(a[0])), s.term(a[1]), s.leaf('bot'))
        if o == 'site': return s.ite(s.cond(mergeall(a[0])), s.segs(a[1]), s.segs(a[2]))
        c = liftable(t)
        if c is not None:
            s.cnt += 1
            if s.cnt > s.LIMIT: raise DDLimit()
            return s.ite(s.cond(mergeall(c)), s.term(assume1(t, c, True)), s.term(assume1(t, c, False)))
        return s.leaf(s.c.dg(t, s.env))
    def segs(s, q):
        if q.op == 'seq' and len(q.args) == 1:
            x = q.args[0]
            if x.op == 'site': return s.term(x)
            if x.op == 'one' and x.args[0].op == 'ite':
                e = x.args[0]
                return s.ite(s.cond(e.args[0]), s.segs(raw('seq', raw('one', e.args[1]))), s.segs(raw('seq', raw('one', e.args[2]))))
        return s.leaf(s.c.dg(q, s.env))
    def hash(s, n):
        hm = {}
        def go(n):
            if n[0] == 'T': return n[1] if not isinstance(n[1], int) else 'b%d' % n[1]
            r = hm.get(id(n))
            if r is None: r = hm[id(n)] = s.c.h('dd', n[1], [go(k) for k in n[2]])
            return r
        return go(n)

def _and0(xs):
    if any(x is FALSE for x in xs): return FALSE
    xs = [x for x in xs if x is not TRUE]
    if not xs: return TRUE
    return xs[0] if len(xs) == 1 else raw('and', *sorted(set(xs), key=lambda x: x.id)) if len(set(xs)) > 1 else xs[0]
def _or0(xs):
    if any(x is TRUE for x in xs): return TRUE
    xs = [x for x in xs if x is not FALSE]
    if not xs: return FALSE
    return xs[0] if len(set(xs)) == 1 else raw('or', *sorted(set(xs), key=lambda x: x.id))
def _not0(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    return raw('not', x)

_C = Canon()
def digest(t, env=None): return _C.dg(t, env or {})
def same0(a, b): return a is b or digest(a) == digest(b)
def same(a, b):
    """equality of normal forms; linear conditions on the same quantity are compared as sets of integers"""
    if same0(a, b): return True
    rec = Canon(rec={}); rec.dg(a, {}); rec.dg(b, {})
    if not any(len(k) > 1 for k in rec.rec.values()): return False
    c = Canon(th=rec.rec)
    if c.dg(a, {}) == c.dg(b, {}): return True
    return len(rec.rec) > 1 and theory(a, b, c)
def theory(a, b, c):
    """equal under decision diagrams: every assignment of the atoms on which the two sides disagree contradicts linear arithmetic"""
    try:
        D = DD(c, {}); t = (lambda u: D.cond(mergeall(u))) if isbool(a) and isbool(b) else D.term
        x, y = t(a), t(b)
    except DDLimit: return False
    left = [4000]
    def sat(x, y, cs):
        if x is y or x == y: return False
        vs = [n[1] for n in (x, y) if n[0] == 'N']
        if not vs: return True
        left[0] -= 1
        if left[0] < 0: raise DDLimit()
        v = min(vs); l = D.lin.get(v)
        for i in range(len(D.dom[v])):
            p, q = D.cof(x, v, i), D.cof(y, v, i)
            if p == q: continue
            if l is None:
                if sat(p, q, cs): return True
                continue
            s, reps = l; new = list(cs)
            if reps[i] is not None: new.append(sub(s, I(reps[i])))
            if i + 1 < len(reps): new.append(sub(I(reps[i + 1] - 1), s))
            if not infeasible(new) and sat(p, q, new): return True
        return False
    try: return not sat(x, y, [])
    except DDLimit: return False
def infeasible(cs):
    """no values satisfy  c >= 0  for every c: Fourier-Motzkin elimination over the monomials"""
    rows = []; ms = set()
    for c in cs:
        r = dict(_mono(c)); rows.append(r); ms |= {m for m in r if m}
    for m in ms:
        if all(nonneg(x) for x in m): rows.append({m: 1})
    while True:
        for r in rows:
            if not any(m and v for m, v in r.items()) and r.get((), 0) < 0: return True
        vs = {m for r in rows for m, v in r.items() if m and v}
        if not vs: return False
        cost = lambda m: sum(r.get(m, 0) > 0 for r in rows) * sum(r.get(m, 0) < 0 for r in rows)
        m = min(sorted(vs, key=lambda m: [x.id for x in m]), key=cost)
        P = [r for r in rows if r.get(m, 0) > 0]; N = [r for r in rows if r.get(m, 0) < 0]
        rows = [r for r in rows if not r.get(m, 0)]
        for p in P:
            for q in N:
                r = {}
                for k in set(p) | set(q):
                    v = p.get(k, 0) * -q[m] + q.get(k, 0) * p[m]
                    if v: r[k] = v
                if r not in rows: rows.append(r)
        if len(rows) > 60: return False

# ---------------------------------------------------------------- printing
def show(t, d=0, lim=14):
    o, a = t.op, t.args
    if d > lim: return '…'
    s = lambda x: show(x, d + 1, lim) if isinstance(x, T) else ('(' + ', '.join(s(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
    if o in ('int', 'bool'): return str(a[0])
    if o == 'str': return repr(a[0])
    if o == 'sym': return a[0]
    if o == 'arg': return a[0]
    if o == 'poly':
        r = []
        for m, c in a:
            x = '*'.join(s(y) for y in m)
            r.append((('' if c == 1 else '-' if c == -1 else '%d*' % c) + x) if x else str(c))
        return '(' + ' + '.join(r) + ')'
    if o == 'ge0': return s(a[0]) + '>=0'
    if o == 'eq0': return s(a[0]) + '==0'
    if o == 'eq': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if o == 'not': return '!' + s(a[0])
    if o == 'and': return '(' + ' && '.join(s(x) for x in a) + ')'
    if o == 'or': return '(' + ' || '.join(s(x) for x in a) + ')'
    if o == 'ite': return 'if(%s; %s; %s)' % tuple(s(x) for x in a)
    if o == 'var': return a[0].split('::')[-1] + ('(' + ', '.join(s(x) for x in a[1]) + ')' if a[1] else '')
    if o == 'adt': return a[0].split('::')[-1] + '{' + ', '.join(n + ': ' + s(x) for n, x in a[1]) + '}'
    if o == 'tup': return '(' + ', '.join(s(x) for x in a) + ')'
    if o in ('seq', 'arr'): return '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'one': return s(a[0])
    if o == 'sl': return '%s[%s..%s]' % tuple(s(x) for x in a)
    if o == 'idx': return '%s[%s]' % tuple(s(x) for x in a)
    if o == 'G': return 'for %s<%s: %s' % tuple(s(x) for x in a)
    if o == 'all': return 'all %s<%s: %s' % tuple(s(x) for x in a)
    if o == 'fld': return s(a[0]) + '.' + a[1]
    if o == 'isv': return 'is%s(%s)' % (a[1].split('::')[-1], s(a[0]))
    if o == 'pl': return s(a[0]) + '!' + a[1].split('::')[-1] + ('' if a[2] == 0 else str(a[2]))
    if o == 'ext': return str(a[0]) + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    return o + '(' + ', '.join(s(x) for x in a) + ')'

def firstdiff(a, b, env=None, path='', depth=0):
    """smallest differing positions between two terms: list of (path, a, b)"""
    ea, eb = env or ({}, {})
    if _C.dg(a, ea) == _C.dg(b, eb): return []
    if depth > 40 or a.op != b.op: return [(path, a, b)]
    if a.op in ('poly', 'and', 'or', 'not', 'ge0', 'eq0', 'eq'):
        if a.op == 'and':
            da = {_C.dg(x, ea): x for x in a.args}; db = {_C.dg(x, eb): x for x in b.args}
            xa = [da[k] for k in da if k not in db]; xb = [db[k] for k in db if k not in da]
            if len(xa) == 1 and len(xb) == 1: return firstdiff(xa[0], xb[0], (ea, eb), path + '/cond', depth + 1)
            return [(path + '/cond', and_(*xa) , and_(*xb))]
        return [(path, a, b)]
    if a.op in ('adt', 'with') and a.args[0] == b.args[0] and [n for n, _ in a.args[1]] == [n for n, _ in b.args[1]]:
        r = []
        for (n, x), (_, y) in zip(a.args[1], b.args[1]): r += firstdiff(x, y, (ea, eb), path + '.' + n, depth + 1)
        return r or [(path, a, b)]
    if a.op in ('G', 'all', 'brkn'):
        r = firstdiff(a.args[1], b.args[1], (ea, eb), path + '/count', depth + 1)
        e1, e2 = dict(ea), dict(eb); e1[a.args[0]] = len(ea); e2[b.args[0]] = len(eb)
        return r + firstdiff(a.args[2], b.args[2], (e1, e2), path + '/each', depth + 1) or [(path, a, b)]
    if a.op == 'mu': return [(path, a, b)]
    ka, kb = list(_kids(a.args)), list(_kids(b.args))
    if len(ka) != len(kb): return [(path, a, b)]
    sa = [x for x in a.args if not isinstance(x, (T, tuple))]; sb = [x for x in b.args if not isinstance(x, (T, tuple))]
    if sa != sb: return [(path, a, b)]
    r = []
    for i, (x, y) in enumerate(zip(ka, kb)): r += firstdiff(x, y, (ea, eb), path + '/%s%d' % (a.op, i), depth + 1)
    return r or [(path, a, b)]

# ---------------------------------------------------------------- specialisation to small sizes
LOOPS = ('G', 'all', 'brkn', 'muat')
def leaves(n): return leaves(n.args[1]) + leaves(n.args[2]) if n.op == 'ite' else [n]
def unroll(t, lim=8):
    """t with every loop of a constant number of iterations written out; maps with a known log are looked up"""
    memo = {}
    def times(n): 
        n = n.args[0] if n.op == 'pos' else n
        k = cst(n)
        return None if k is None or k > lim else max(k, 0)
    def f(x):
        r = memo.get(x)
        if r is None: r = memo[x] = g(x)
        return r
    def cases(n, depth=4):
        """a count that depends on conditions, as a decision over plain counts"""
        p = n.args[0] if n.op == 'pos' else n
        if p.op == 'ite': c, y, z = p.args
        elif p.op == 'poly':
            t = next((y for mm, _ in p.args for y in mm if y.op == 'ite'), None)
            if t is None: return n
            c, y, z = t.args[0], substany(p, {t: t.args[1]}), substany(p, {t: t.args[2]})
        else: return n
        if n.op == 'pos': y, z = mnt_pos(y), mnt_pos(z)
        return ite(c, cases(y, depth - 1), cases(z, depth - 1)) if depth else n
    def percase(n, mk, comb):
        return comb(n.args[0], percase(n.args[1], mk, comb), percase(n.args[2], mk, comb)) if n.op == 'ite' else f(mk(n))
    def g(x):
        o, a = x.op, x.args
        if o in ('G', 'all', 'brkn') and a[1] is not INF:
            n = f(a[1]); n = cases(n) if n.op in ('ite', 'pos', 'poly') else n
            if n.op == 'ite' and all(times(y) is not None for y in leaves(n)):
                return percase(n, lambda q: raw(o, a[0], q, a[2]), (lambda c, y, z: seq(site(c, y, z))) if o == 'G' else ite)
        if o == 'G':
            k = times(f(a[1]))
            if k is not None: return seq(*[f(subst(a[2], {a[0]: I(j)})) for j in range(k)])
        elif o == 'all':
            k = times(f(a[1]))
            if k is not None: return and_(*[f(subst(a[2], {a[0]: I(j)})) for j in range(k)])
        elif o == 'brkn':
            k = times(f(a[1])) if a[1] is not INF else None
            if a[1] is INF:
                cs = []
                while len(cs) < lim and (not cs or cs[-1] is not TRUE): cs.append(assume(f(subst(a[2], {a[0]: I(len(cs))})), [not_(y) for y in cs]))
                if cs[-1] is TRUE:
                    r = I(len(cs) - 1)
                    for j in reversed(range(len(cs) - 1)): r = ite(cs[j], I(j), r)
                    return r
            if k is not None:
                r = I(k)
                for j in reversed(range(k)): r = ite(f(subst(a[2], {a[0]: I(j)})), I(j), r)
                return r
        elif o == 'muat':
            n = f(a[1])
            if n.op == 'ite' : return f(ite(n.args[0], raw('muat', a[0], n.args[1]), raw('muat', a[0], n.args[2])))
            k = times(n); m = a[0]
            if k is not None:
                which, syms, inits, upds, bv = m.args[:5]
                vals = [f(v) for v in inits]
                for j in range(k):
                    e = dict(zip(syms, vals)); e[bv] = I(j)
                    vals = [f(subst(u, e)) for u in upds]
                return vals[which]
        elif o == 'get':
            m = f(a[0]); k = f(a[1])
            r = lookup(m, k)
            if r is not None: return r
        return rebuild(x, f)
    return f(t)
def lookup(m, k):
    if m.op == 'ite':
        x, y = lookup(m.args[1], k), lookup(m.args[2], k)
        return None if x is None or y is None else ite(m.args[0], x, y)
    if m.op != 'map' or m.args[0].op not in ('seq',) and m.args[0] is not EMPTY: return None
    def go(l, els):
        if l is EMPTY: return els
        if l.op != 'seq': return None
        for e in l.args:
            if FUEL[0] is not None: burn()
            if e.op == 'one' and e.args[0].op in ('tup', 'adt'): els = ite(eq(fld(e.args[0], '0'), k), Some_(fld(e.args[0], '1')), els)
            elif e.op == 'site':
                p, q = go(e.args[1], els), go(e.args[2], els)
                if p is None or q is None: return None
                els = ite(e.args[0], p, q)
            else: return None
        return els
    return go(m.args[0], NONE)
def Some_(v): return var('Some', v)
def closedcounts(t, lists=None):
    """the sizes the loops of t depend on"""
    out = set()
    for x in walk(t):
        n = None
        if x.op in ('G', 'all', 'brkn', 'muat'): n = x.args[1]
        if n is INF and x.op == 'brkn':
            # a search that shortens a list until it stops
            for y in walk(x.args[2]):
                if y.op == 'muat' and y.args[0].op == 'mu':
                    for v, u in zip(y.args[0].args[2], y.args[0].args[3]):
                        if u.op == 'sl' and v.op in ('arg', 'fld', 'idx') and lists is not None: lists.add(v)
        if n is None or n is INF: continue
        for m in ([n] if n.op != 'poly' else [y for mm, _ in n.args for y in mm]):
            while m.op in ('pos',):
                m = m.args[0]
            st = [m] if m.op != 'poly' else [y for mm, _ in m.args for y in mm]
            for y in st:
                if y.op in ('len', 'num', 'arg', 'trunc', 'fld', 'ext', 'idx'): out.add(y)
    return out
def specialise(a, b, k, rounds=4, done=None):
    """a and b for inputs all of whose sizes are k; None when loops remain"""
    for _ in range(rounds):
        lists = set()
        sz = {x for x in closedcounts(a, lists) | closedcounts(b, lists) if not any(y.op == 'sym' for y in x.fv)}
        m = {x: I(k) for x in sz}
        m.update({x: seq(*[one(idx(raw('elements', x), I(j))) for j in range(k)]) for x in lists if not any(y.op == 'sym' for y in x.fv)})
        if m: a, b = substany(a, m), substany(b, m)
        if done is not None: done.update(x.args[0] for x in m if x.op == 'len')
        a, b = unroll(a), unroll(b)
        if sum(1 for _ in walk(a)) > 60000: return None
        if not any(x.op in LOOPS for t in (a, b) for x in walk(t)):
            # an element at a position behind a list of unknown length
            sg = {y for t in (a, b) for x in walk(t) if x.op == 'idx' and x.args[0].op == 'seq' for y in segments(x.args[0]) if ln(y).op == 'len'}
            if not sg: return a, b
            a, b = (substany(expanded(x, sg, k), {ln(y): I(k) for y in sg}) for x in (a, b))
    return None
def segments(s):
    for x in s.args:
        if x.op == 'site':
            for y in x.args[1:]: yield from segments(y)
        elif x.op in ('arg', 'fld', 'idx', 'pl'): yield x
def expanded(t, sg, k):
    """t with the lists sg written out as k elements where they are parts of other lists"""
    memo = {}
    def f(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'seq': r = seq(*[z for y in x.args for z in ([one(f(idx(y, I(j)))) for j in range(k)] if y in sg else [f(y)])])
            else: r = rebuild(x, f)
            memo[x] = r
        return r
    return f(t)
def ops(t): return {x.op if x.op != 'ext' else x.args[0] for x in walk(t)}
def smallcmp(a, b, k=2):
    """'same', 'differ' or None (not decided) of a and b on inputs all of whose sizes are k"""
    FUEL[0] = 60000 if k == 1 else 200000
    try:
        done = set()
        r = specialise(a, b, k, done=done)
        if r is None: return None
        if same(*r): return 'same'
        zs = {x: raw('bytes', bytes([cst(x.args[0])] * cst(x.args[1]))) for t in r for x in walk(t) if x.op == 'rep' and cst(x.args[0]) is not None and 0 <= cst(x.args[0]) < 256 and cst(x.args[1]) is not None and 0 < cst(x.args[1]) <= 256}
        if zs:
            r = [substany(x, zs) for x in r]
            if same(*r): return 'same'
        # a list that is rebuilt from its elements is that list
        m = {x: seq(*[one(idx(raw('elements', x), I(j))) for j in range(k)]) for x in done if any(y.op == 'idx' and y.args[0] is x and y.args[1].op == 'int' for t in r for y in walk(t))}
        if m and same(*[substany(x, m) for x in r]): return 'same'
        new = ops(r[0]) - ops(r[1]) - {'eq', 'eq0', 'ge0', 'lt', 'ge', 'ite', 'and', 'or', 'not', 'site', 'seq', 'one', 'int', 'poly', 'adt', 'var', 'isv', 'pl', 'fld', 'bool', 'idx'}
        return None if new else 'differ'
    except (DDLimit, OutOfFuel, RecursionError): return None
    finally: FUEL[0] = None
def differs(a, b):
    """a size on which a and b differ"""
    for k in (1, 2, 3):
        r = smallcmp(a, b, k)
        if r is None and k > 1: return None
        if r == 'differ': return k
