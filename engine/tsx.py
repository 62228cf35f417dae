"""Translation of the TypeScript package into value graphs (same terms and loops as the Rust translation).

Exceptions are the Err exit of a function; promises are evaluated where they are awaited; typed arrays, DataViews,
arrays, maps and objects created by the code are cells of an abstract heap, values received from outside are immutable
terms. A construct without a summary becomes `unk`, which makes every obligation that depends on it undecided.
"""
from machine import *
import terms as TM
from rust import udiv, urem, band
import json, os, re

UNDEF = raw('undef'); NULL = raw('null')
KINDS = ('Array', 'Object', 'Null', 'Undefined', 'String', 'Number', 'Boolean', 'BigInt', 'Function')
VV = {k: 'JsVal::' + k for k in KINDS}
try:
    from terms import VARIANTS
except ImportError:
    from rust import VARIANTS
VARIANTS['JsVal'] = list(KINDS)
ES = {'u8': 1, 'u16': 2, 'u32': 4, 'big64': 8}
TA = {'Uint8Array': 'u8', 'Uint8ClampedArray': 'u8', 'Uint16Array': 'u16', 'Uint32Array': 'u32', 'BigUint64Array': 'big64', 'Buffer': 'u8'}
TR = {1: 'u8', 2: 'u16', 4: 'u32', 8: 'u64'}

def split_union(t):
    out = []; d = 0; cur = ''
    for i, ch in enumerate(t):
        if ch in '<({[': d += 1
        elif ch in ')}]' or ch == '>' and t[i - 1] != '=': d -= 1
        if ch == '|' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + [cur.strip()]
def kinds(t):
    """the runtime kinds a static type allows"""
    r = set()
    for u in split_union(t or 'any'):
        u = u.strip('() ') if not u.startswith('(') or '=>' not in u else u
        h = re.split(r'[<\s{]', u)[0]
        if u.startswith(('"', "'", '`')) or u == 'string': r.add('string')
        elif re.fullmatch(r'-?[\d.]+', u) or u == 'number': r.add('number')
        elif re.fullmatch(r'-?\d+n', u) or u == 'bigint': r.add('bigint')
        elif u in ('true', 'false', 'boolean'): r.add('boolean')
        elif u in ('undefined', 'void'): r.add('undefined')
        elif u == 'null': r.add('null')
        elif h in TA: r.add(TA[h])
        elif h in ('ArrayBuffer', 'ArrayBufferLike', 'SharedArrayBuffer'): r.add('buf')
        elif h == 'DataView': r.add('dv')
        elif h in ('Map', 'ReadonlyMap'): r.add('map')
        elif h in ('Set', 'ReadonlySet'): r.add('set')
        elif h == 'Promise' or h == 'PromiseLike': r.add('promise')
        elif u.endswith('[]') or h in ('Array', 'ReadonlyArray', 'readonly') or u.startswith('['): r.add('array')
        elif '=>' in u: r.add('function')
        elif u in ('any', 'unknown', 'never', '', 'error') or len(u) == 1: r.add('any')
        else: r.add('object')
    return r
def only(t, k): return kinds(t) - {'undefined', 'null'} == {k}

def mapvals(t, bound=frozenset()):
    """terms covering every value stored in map t (None: unknown); values of recurrences by induction"""
    o = t.op
    if o == 'map':
        l = seqvals(t.args[0], bound, 1)
        return l
    if o == 'arr': return list(t.args)
    if o in ('seq', 'one', 'G', 'site') and t is not EMPTY: return seqvals(t, bound)
    if t is EMPTY: return []
    if o == 'ite': return both(mapvals(t.args[1], bound), mapvals(t.args[2], bound))
    if o == 'under': return mapvals(t.args[1], bound)
    if o == 'recmut' or t in bound or o == 'arg' and t.args[0].startswith('rm'): return []
    if o == 'muat':
        k, new, inits, ups, nb = t.args[0].args; b = bound | set(new); out = []
        todo = [k]; done = set()
        while todo:
            j = todo.pop()
            if j in done: continue
            done.add(j)
            for x in (inits[j], ups[j]):
                y = mapvals(x, b)
                if y is None: return None
                out += y
                todo += [i for i, s in enumerate(new) if s in x.fv and i not in done]
        return out
    return None
def both(a, b): return None if a is None or b is None else a + b
def seqvals(s, bound, pair=0):
    if pair and s.op == 'one': return [fld(s.args[0], '1')]
    if s is EMPTY: return []
    if s.op == 'one': return [s.args[0]]
    if s.op == 'arr': return list(s.args)
    if s.op == 'seq':
        out = []
        for x in s.args:
            out = both(out, seqvals(x, bound, pair))
        return out
    if s.op == 'G': return seqvals(s.args[2], bound, pair)
    if s.op in ('site', 'ite'): return both(seqvals(s.args[1], bound, pair), seqvals(s.args[2], bound, pair))
    if s.op == 'logof': return mapvals(s.args[0], bound)
    if s in bound or s.op in ('muat', 'recmut', 'ite'): return mapvals(s, bound)
    return None

class TsProg:
    def __init__(s, path):
        d = json.load(open(path))
        s.files = d['files']; s.diags = d.get('diags', [])
        s.decls = {}; s.mutvars = set(); s.mutobjs = set(); s.fnfile = {}
        for f, m in s.files.items():
            for n in m['ss']: s.top(f, n)
        for f, m in s.files.items(): s.scan(m['ss'])
    def top(s, f, n):
        if n['k'] == 'fndecl': s.decls[n['f']['d']] = ('fn', n['f'], f); s.fnfile[n['f']['d']] = f
        elif n['k'] == 'classdecl': s.decls[n['c']['d']] = ('class', n['c'], f)
        elif n['k'] == 'enum': s.decls[n['d']] = ('enum', n, f)
        elif n['k'] == 'var':
            for d in n['ds']:
                for p in s.pids(d['pat']): s.decls[p['d']] = ('var', d, f, n['kind'], p)
    def pids(s, p):
        if p is None: return []
        if p['k'] == 'pid': return [p]
        return [x for e in p.get('els', ()) if e for x in s.pids(e['pat'])]
    MUT = {'set', 'push', 'delete', 'add', 'clear', 'splice', 'unshift', 'pop', 'shift', 'fill', 'sort', 'reverse', 'copyWithin'}
    def scan(s, n):
        if isinstance(n, list):
            for x in n: s.scan(x)
        elif isinstance(n, dict):
            k = n.get('k')
            if k == 'num': n.setdefault('ty', 'bigint' if n.get('big') else 'number')
            if k in ('asg', 'upd'):
                a = n['a']
                if a['k'] == 'id': s.mutvars.add(a['d'])
                else:
                    while a['k'] in ('mem', 'idx'): a = a['o']
                    if a['k'] == 'id': s.mutobjs.add(a['d'])
            elif k == 'pexp' and n['e']['k'] == 'id': s.mutvars.add(n['e']['d'])
            elif k == 'call' and n['f']['k'] == 'mem' and n['f']['o']['k'] == 'id' and n['f']['name'] in s.MUT: s.mutobjs.add(n['f']['o']['d'])
            elif k == 'call' and n['f']['k'] == 'mem' and n['f']['name'] in ('getRandomValues', 'assign'):
                for a in n['args'][:1]:
                    if a.get('k') == 'id': s.mutobjs.add(a['d'])
            for v in n.values():
                if isinstance(v, (dict, list)): s.scan(v)
    def fns(s):
        """every named function: (file, name, node, class)"""
        for f, m in s.files.items():
            for n in m['ss']:
                if n['k'] == 'fndecl': yield f, n['f']['name'], n['f'], None
                elif n['k'] == 'classdecl':
                    for k, v in n['c']['methods'].items(): yield f, k, v, n['c']
                elif n['k'] == 'var':
                    for d in n['ds']:
                        if d['init'] and d['init']['k'] == 'fn' and d['pat']['k'] == 'pid': yield f, d['pat']['name'], d['init'], None
    def recursive_fn(s, fn):
        r = fn.get('_rec')
        if r is None:
            seen = set(); todo = [fn]; r = False
            while todo and not r:
                x = todo.pop()
                for d in s.refs(x):
                    if d == fn['d']: r = True; break
                    if d in seen: continue
                    seen.add(d)
                    t = s.decls.get(d)
                    g = t[1] if t and t[0] == 'fn' else s.local().get(d)
                    if g is not None:
                        if g is fn: r = True; break
                        todo.append(g)
            fn['_rec'] = r
        return r
    def local(s):
        if not hasattr(s, '_local'):
            s._local = {}
            def w(n):
                if isinstance(n, list):
                    for x in n: w(x)
                elif isinstance(n, dict):
                    if n.get('k') == 'fndecl': s._local[n['f']['d']] = n['f']
                    if n.get('k') == 'var':
                        for d in n['ds']:
                            if d['init'] and d['init']['k'] == 'fn' and d['pat']['k'] == 'pid': s._local[d['pat']['d']] = d['init']
                    for v in n.values():
                        if isinstance(v, (dict, list)): w(v)
            for m in s.files.values(): w(m['ss'])
        return s._local
    def refs(s, n):
        if isinstance(n, list):
            for x in n: yield from s.refs(x)
        elif isinstance(n, dict):
            if n.get('k') == 'id': yield n['d']
            for v in n.values():
                if isinstance(v, (dict, list)): yield from s.refs(v)

HND = ('jref', 'ta', 'dv', 'buf')
def hashnd(t): return any(x.op in HND for x in walk(t))
def bits(k): return I(1 << k)
BYTE = 256

class Undecided(Exception): pass

def wasmbytes(v):
    """a byte string that the WASM module returns"""
    if v.op == 'fld' and v.args[1] in ('ciphertext', 'key'): v, f = v.args[0], 'call:wasm_encap'
    else: f = 'call:wasm_decap'
    while v.op == 'pl' and v.args[1] == 'Ok': v = v.args[0]
    return v.op == 'ext' and v.args[0] == f
class TS(Machine):
    dirty = False
    signed = True
    def __init__(m, prog, opaque=(), gstate=None):
        super().__init__()
        m.prog = prog; m.opaque = set(opaque); m.inl = []; m.tyof = {}; m.glob = {}; m.inmod = False
        m.recm = {}; m.recdef = {}; m.defargs = set(); m.prom = {}; m.kind = {}; m.nh = 0; m.throws = []; m.gwrites = []; m.gawait = set(); m.gty = {}
        m.w0 = {}; m.shape = None; m.imps = {}

    # ---------------------------------------------------------------- heap
    def alloc(m, st, kind, v):
        m.nh += 1; c = ('h', m.nh); st.store[c] = v; m.kind[c] = kind
        return raw('buf', c) if kind == 'bytes' else raw('jref', c)
    def newta(m, st, kind, content):
        """a fresh typed array with these bytes"""
        b = m.alloc(st, 'bytes', content)
        return raw('ta', kind, b.args[0], I(0), ln(content))
    def content(m, st, B): return st.store.get(('mut', B), B) if isinstance(B, T) else st.store.get(B, BOT)
    def track(m, st, *ts):
        """buffers from outside: what is written to them is kept"""
        for t in ts: st.store.setdefault(('mut', t), t)
    def written(m, st, o, off, b):
        """write b at byte offset off of the typed array o; False if o is not tracked"""
        if o.op == 'ta' and not isinstance(o.args[1], T): c = o.args[1]; off = add(o.args[2], off)
        elif o.op == 'ta': c = ('mut', o.args[1]); off = add(o.args[2], off)
        else: c = ('mut', o)
        if c not in st.store:
            if c[0] == 'mut' and not (c[1].op == 'ite'): st.store[c] = unk('mutated')
            return False
        st.store[c] = write(st.store[c], off, b); return True
    def tabytes(m, st, v): 
        c = m.content(st, v.args[1]); return sl(c, v.args[2], add(v.args[2], v.args[3]))
    def reify(m, st, v):
        memo = {}
        if not m.clean(st): v = m.current(st, v)
        def f(x):
            r = memo.get(x)
            if r is None:
                if x.op == 'jref' and not m.clean(st): r = m.wrapkind(x, f(m.current(st, st.store.get(x.args[0], BOT))))
                elif x.op == 'jref': r = m.wrapkind(x, f(st.store.get(x.args[0], BOT)))
                elif x.op == 'ta': r = m.tabytes(st, x) if x.args[0] == 'u8' else raw('words', x.args[0], m.tabytes(st, x))
                elif x.op == 'dv': r = raw('dvof', m.content(st, x.args[0]))
                elif x.op == 'buf': r = m.content(st, x.args[0])
                elif not hashnd(x): r = x
                else: r = rebuild(x, f)
                memo[x] = r
            return r
        return f(v)
    def clean(m, st): return not m.dirty or all(v is k[1] for k, v in st.store.items() if isinstance(k, tuple) and k[0] == 'mut')
    def current(m, st, v):
        """references to tracked buffers in v -> their present content"""
        if ('mut', v) in st.store: return st.store[('mut', v)]
        if v.op == 'ite': return ite(v.args[0], m.current(st, v.args[1]), m.current(st, v.args[2]))
        if v.op == 'adt': return raw('adt', v.args[0], tuple((n, m.current(st, x)) for n, x in v.args[1]))
        if v.op in ('arr', 'tup'): return raw(v.op, *[m.current(st, x) for x in v.args])
        return v
    def wrapkind(m, ref, v): return v
    def note(m, v, ty):
        """the static type of an argument expression"""
        for x in m.alts(v):
            if x.op in ('idx', 'fld', 'pl', 'sym'): m.tyof[x] = ty
    def jkind(m, v, ty=''):
        """runtime kind of a value, from its representation or its static type"""
        o = v.op
        if o == 'jref': return m.kind[v.args[0]]
        if o == 'ta': return v.args[0]
        if o in ('dv', 'buf'): return o
        if o in ('clo', 'fnv', 'bound', 'cls', 'x'): return 'function'
        if o == 'promise': return 'promise'
        if o in ('str', 'cat', 'tostr'): return 'string'
        if o == 'ext' and v.args[0] in ('jsstr', 'tostr16', 'js_stringify', 'utf8dec', 'repeat', 'strat'): return 'string'
        if o == 'ext' and v.args[0] == 'bigint': return 'bigint'
        if o == 'undef': return 'undefined'
        if o == 'null': return 'null'
        if o in ('arr', 'seq', 'rep'): 
            k = kinds(ty)
            if len(k) == 1 and k & {'string', 'u8', 'buf', 'u32'}: return next(iter(k))
            return 'array'
        if o == 'bytes': return 'u8'
        if o == 'tup': return 'array'
        if o == 'map': return 'map'
        if o == 'adt': return 'object'
        if o == 'bool' or TM.isbool(v): return 'boolean'
        if o == 'g': return 'g'
        k = kinds(ty) - {'undefined', 'null'}
        if len(k) == 1 and k != {'any'}: return next(iter(k))
        if v in m.tyof: return m.tyof[v]
        if v.op in ('fld', 'pl', 'ext') and wasmbytes(v): return 'u8'
        if v.op == 'pl' and v.args[0].op == 'get':
            vs = mapvals(v.args[0].args[0])
            if vs:
                ks = {m.jkind(x) for x in vs}
                if len(ks) == 1: return next(iter(ks))
        if v.op == 'idx' and v.args[0].op in ('ite', 'muat', 'recmut', 'seq', 'arr'):
            vs = mapvals(v.args[0])
            if vs:
                ks = {m.jkind(x) for x in vs}
                if len(ks) == 1: return next(iter(ks))
        return 'any'
    def lift(m, st, v, f):
        """apply f to each alternative of a gated value"""
        if v.op == 'ite':
            return m.branch(st, v.args[0], lambda q: m.lift(q, v.args[1], f), lambda q: m.lift(q, v.args[2], f))
        return f(st, v)
    def needlift(m, v):
        return v.op == 'ite' and any(x.op in HND or x.op in ('undef', 'null', 'clo', 'fnv', 'adt', 'promise', 'bound') for x in m.alts(v))
    def alts(m, v):
        if v.op == 'ite': return m.alts(v.args[1]) + m.alts(v.args[2])
        return [v]
    def known(m, st, v):
        """v where the path condition settles its outermost gates"""
        k = None
        while v.op == 'ite':
            if k is None: k = {x for y in st.pc for x in conj(y)}
            c = v.args[0]
            if c in k or all(x in k for x in conj(c)): v = v.args[1]
            elif not_(c) in k: v = v.args[2]
            elif c.op == 'or' and any(x in k for x in c.args): v = v.args[1]
            elif c.op == 'and' and any(not_(x) in k for x in c.args): v = v.args[2]
            else: break
        return v

    # ---------------------------------------------------------------- failure
    def throwif(m, st, fr, c, why=''):
        if st.dead or c is FALSE: return
        c = m.settle(c)
        if c is FALSE: return
        es = st.fork(c)
        if not es.dead: fr.exits.append((es.pc, Err(raw('thrown')), es.store))
        st.know(not_(c))
    def settle(m, c):
        """c under the bounds of the enclosing loops"""
        if c.op == 'not' : return not_(m.settle(c.args[0]))
        if c.op == 'ge0':
            for g in m.ctxconds:
                for a in conj(g):
                    if a.op != 'ge0': continue
                    if TM._implies_lin(a, c) : return TRUE
                    if nonneg(sub(sub(neg(c.args[0]), I(1)), a.args[0])): return FALSE
                    # c = k*a + d with d >= 0
                    for k in m.factors(c.args[0], a.args[0]):
                        if not nonneg(k): continue
                        if nonneg(sub(c.args[0], mul(k, a.args[0]))): return TRUE
                        if nonneg(sub(sub(neg(c.args[0]), I(1)), mul(k, a.args[0]))): return FALSE
            if m.bounded(c.args[0], 2): return TRUE
            if m.bounded(sub(neg(c.args[0]), I(1)), 2): return FALSE
        if c.op in ('and', 'or'):
            xs = [m.settle(x) for x in c.args]
            return and_(*xs) if c.op == 'and' else or_(*xs)
        return c
    def bounded(m, p, depth):
        """p >= 0, as a combination of the bounds of the enclosing loops"""
        if nonneg(p): return True
        if depth <= 0: return False
        for g in m.ctxconds:
            for a in conj(g):
                if a.op == 'ge0' and any(m.bounded(sub(p, mul(k, a.args[0])), depth - 1) for k in [I(1)] + [k for k in m.factors(p, a.args[0]) if nonneg(k)]): return True
        return False
    def factors(m, p, a):
        out = []
        if p.op != 'poly': return out
        for s in a.fv:
            for mm, c in p.args:
                if s in mm:
                    l = list(mm); l.remove(s)
                    out.append(TM.mkpoly({tuple(l): abs(c)}))
        return out
    def propagate(m, st, fr, r):
        """the value of a call whose outcome is r: a thrown exception leaves the caller too"""
        if st.dead: return BOT
        ok = isv(r, 'Ok')
        if ok is FALSE:
            m.exit(st, fr, Err(raw('thrown'))); return BOT
        if ok is not TRUE:
            es = st.fork(not_(ok))
            if not es.dead: fr.exits.append((es.pc, Err(raw('thrown')), es.store))
            st.know(ok)
        return pl(r, 'Ok', 0)
    def mayfail(m, st, fr, name, *args):
        r = ext(name, *args)
        return m.propagate(st, fr, r)
    def opaquecall(m, st, fr, ok, val):
        m.throwif(st, fr, not_(ok)); return val

    # ---------------------------------------------------------------- functions
    def run(m, fn, args, this=None):
        st = St(); m.initglobals(st); m.track(st, *[a for a in args if a.op == 'arg' and a.args[-1] == 'bytes'])
        v = m.invoke0(st, fn, [m.alloc(st, 'array', a) if a.op == 'arg' and a.args[-1] == 'array' else a for a in args], this, None)
        return m.reify(st, v), st
    def initglobals(m, st):
        st.store[('wasm', 'core')] = arg('wasmcore'); st.store[('wasm', 'mem')] = arg('wasmmem')
        st.store[('init',)] = m.gvar('initialised', 'boolean')
        for d, t in m.prog.decls.items():
            if t[0] == 'var' and d in m.prog.mutvars:
                st.store[('g', d)] = m.gvar(t[4]['name'], t[1]['ty'])
    def gvar(m, name, ty):
        r = arg('g:' + name, 'bool' if only(ty, 'boolean') else ''); m.gty[r] = ty or 'any'
        return r
    def invoke0(m, st, fn, args, this, parent):
        """outcome (Ok v | Err) of calling fn"""
        if len(m.inl) > m.maxdepth: return unk('depth')
        if fn['gen'] or fn['body'] is None: return unk('generator')
        d = fn['d']
        if m.shape is not None: return m.invoke1(st, fn, args, this, parent) if m.inl.count(d) <= m.shape + 2 else unk('recursion')
        if d in m.inl: return m.recursive(st, fn, args, parent)
        if not m.prog.recursive_fn(fn): return m.invoke1(st, fn, args, this, parent)
        m.recm[d] = ([], False); m.recdef.pop(d, None)
        # the body on unknown arguments: what every deeper call does
        if m.fixrec(st, d, lambda s: m.generic(s, fn, args, this, parent)) is None: return unk('recursion')
        m.recdef[d] = m.fixrec(st, d, lambda s: m.generic(s, fn, args, this, parent))
        r = m.fixrec(st, d, lambda s: m.invoke1(s, fn, args, this, parent), keep=True)
        return r if r is not None else unk('recursion')
    def fixrec(m, st, d, run, keep=False):
        """run until the set of cells the recursive calls write is stable"""
        pre = list(st.store)
        for _ in range(6):
            ke, ko, kt, kg = len(m.events), len(m.obls), len(m.throws), len(m.gwrites)
            s = st.fork(); r = run(s)
            M, th = m.recm[d]
            out = r if keep else r[1]
            new = [c for c in pre if (s if keep else r[2]).store.get(c) is not (st if keep else r[0]).store.get(c) and c not in M]
            th2 = th or isv(out, 'Ok') is not TRUE
            if not new and th2 == th:
                if keep: st.set(s)
                else: del m.events[ke:]; del m.obls[ko:]; del m.throws[kt:]; del m.gwrites[kg:]
                return r if keep else r[3]
            del m.events[ke:]; del m.obls[ko:]; del m.throws[kt:]; del m.gwrites[kg:]
            m.recm[d] = (M + new, th2)
        return None
    def generic(m, s, fn, args, this, parent):
        """(state before, outcome, state after, definition) of the body on unknown arguments and unknown contents of the cells it writes"""
        M, th = m.recm[fn['d']]; dep = len([x for x in m.inl if x in m.recm])
        st0 = St(); st0.store = dict(s.store)
        a = []
        for i, p in enumerate(fn['params']):
            v = args[i] if i < len(args) else None
            if v is not None and (v.op in ('clo', 'fnv') or v.op == 'jref' and v.args[0] in M): a.append(v); continue
            ty = p['ty'] or ''
            if p['rest']: return st0, unk('rest'), st0, unk('rest')
            if p['def'] is not None or not kinds(ty) & {'undefined', 'any'}: m.defargs.add('rp%d.%d' % (dep, i))
            a.append(arg('rp%d.%d' % (dep, i), 'bytes' if ty.startswith('Uint8Array') else 'bool' if ty == 'boolean' else ''))
        for j, c in enumerate(M): st0.store[c] = arg('rm%d.%d' % (dep, j))
        s1 = st0.fork()
        r = m.invoke1(s1, fn, a, this, parent)
        ok = isv(r, 'Ok')
        un = lambda v: under(ok, assume(v, [ok])) if ok is not TRUE else v
        df = raw('recdef', ok, un(pl(r, 'Ok', 0)) if ok is not FALSE else UNDEF, *[un(m.reify(s1, s1.store.get(c, UNDEF))) for c in M])
        return st0, r, s1, df
    def recursive(m, st, fn, args, parent):
        M, th = m.recm[fn['d']]
        fr = Frame(fn, parent); fr.this = None
        m.bindparams(st, fr, fn, args)
        vals = []
        for p in fn['params']:
            if p['pat']['k'] != 'pid': vals.append(unk('pattern')); continue
            v = st.store[fr.vars[p['pat']['d']]]
            if v.op == 'jref' and v.args[0] in M or v.op in ('clo', 'fnv'): continue
            vals.append(m.reify(st, v))
        lv = [x for x in m.inl if x in m.recm]
        key = 'rec%d' % (len(lv) - 1 - max(i for i, x in enumerate(lv) if x == fn['d']))
        olds = tuple(m.reify(st, st.store[c]) for c in M)
        vals = tuple(vals) + olds
        df = m.recdef.get(fn['d'])
        df = (df,) if df is not None else ()
        for j, c in enumerate(M): st.store[c] = raw('recmut', key, j, *df, vals)
        r = raw('rec', key, *df, vals)
        return r if th else Ok(r)
    def bindparams(m, st, fr, fn, args):
        i = 0
        for p in fn['params']:
            if p['rest']:
                rest = args[i:]; v = m.alloc(st, 'array', raw('arr', *[m.reify(st, x) for x in rest]))
                if any(isinstance(x, tuple) for x in rest): v = unk('spread')
            else: v = args[i] if i < len(args) else UNDEF
            i += 1
            if p['def'] is not None: v = m.default(st, fr, v, p['def'], p['ty'])
            m.bindpat(st, fr, p['pat'], v, p['ty'])
            if p['prop']: m.setprop(st, fr, fr.this, p['pat']['name'], v)
    def default(m, st, fr, v, e, ty):
        c = m.isundef(v, ty + ' | undefined')
        if c is FALSE or v.op == 'arg' and v.args[0] in m.defargs: return v
        return m.branch(st, c, lambda q: m.ev(e, q, fr), lambda q: v)
    def invoke1(m, st, fn, args, this, parent):
        fr = Frame(fn, parent); fr.this = this
        n = len(st.pc)
        m.inl.append(fn['d']); m.stack.append(m.fname(fn)); m.called.add(m.fname(fn))
        try:
            m.bindparams(st, fr, fn, args)
            m.x(fn['body'], st, fr)
            if fn['async'] : pass
            return m.finish(st, fr, n, Ok(UNDEF))
        finally:
            m.inl.pop(); m.stack.pop()
    def fname(m, fn): return '%s::%s' % (fn['d'].split(':')[0], fn['name'] or 'line%d' % fn['sp'])
    def callfn(m, st, fr, fn, args, this=None, parent=None):
        if fn['async']:
            k = len(m.prom); m.prom[k] = (fn, list(args), this, parent)
            return raw('promise', k, *[a for a in args if isinstance(a, T)])
        return m.propagate(st, fr, m.invoke0(st, fn, args, this, parent))
    def callval(m, st, fr, f, args, n=None, this=None):
        if st.dead: return BOT
        o = f.op
        if o == 'clo':
            fn, fr0, th = m.clos[f.args[0]]
            return m.callfn(st, fr, fn, args, th if fn['arrow'] else this, fr0)
        if o == 'fnv':
            t = m.prog.decls[f.args[0]]
            if t[1]['name'] in m.opaque: return m.opaquefn(st, fr, t[1], args)
            return m.callfn(st, fr, t[1], args)
        if o == 'bound': return m.method(st, fr, f.args[0], f.args[1], args, n or {}, '')
        if o == 'g': return m.builtin(st, fr, f.args[0], args, n or {})
        if o == 'x': return m.external(st, fr, f.args[0], f.args[1], args, n or {})
        if o == 'extfn': return m.instcall(st, fr, f.args[0], f.args[1], args)
        if o == 'ite': return m.branch(st, f.args[0], lambda q: m.callval(q, fr, f.args[1], args, n, this), lambda q: m.callval(q, fr, f.args[2], args, n, this))
        if o == 'resolver': return UNDEF
        return unk('call', f)
    def opaquefn(m, st, fr, fn, args):
        r = ext('call:' + fn['name'], *[m.reify(st, a) for a in args])
        m.called.add(m.fname(fn))
        if fn['async']: return raw('promise', -1, r)
        return m.propagate(st, fr, r)
    def await_(m, st, fr, v):
        if st.dead: return BOT
        if v.op == 'ite' and any(x.op == 'promise' or x.op == 'arg' for x in m.alts(v)):
            return m.branch(st, v.args[0], lambda q: m.await_(q, fr, v.args[1]), lambda q: m.await_(q, fr, v.args[2]))
        if v.op == 'promise':
            k = v.args[0]
            if k == -1:
                x = m.propagate(st, fr, v.args[1])
                if not st.dead and isinstance(x, T): m.track(st, x, fld(x, 'ciphertext'), fld(x, 'key'))
                return x
            if k == -2: return v.args[1]
            if k == -3:
                ok, val = v.args[1], v.args[2]; m.yielded(st); m.throwif(st, fr, not_(ok)); return val
            if k == -4:
                m.yielded(st); m.propagate(st, fr, v.args[1])
                if not st.dead: st.store[('init',)] = TRUE
                return UNDEF
            if k == -5:
                return m.alloc(st, 'array', raw('arr', *[m.reify(st, m.await_(st, fr, x)) for x in v.args[1:]]))
            if k == -6: return m.then_(st, fr, v.args[1], v.args[2], v.args[3:])
            fn, args, this, parent = m.prom[k]
            r = m.invoke0(st, fn, args, this, parent)
            return m.await_(st, fr, m.propagate(st, fr, r))
        if v.op == 'arg' and v.args[0].startswith('g:'):
            # a promise kept in a module variable: what every assignment to that variable guarantees
            m.gawait = m.gawait | {v}
            m.propagate(st, fr, ext('awaited', v))
            if not st.dead: st.store[('init',)] = or_(st.store[('init',)], assume(m.notnull(v, m.gty.get(v, 'any')), list(st.pc)))
            return UNDEF
        return v
    def yielded(m, st):
        """another call may run until the event loop comes back: it may use the module's buffers"""
        for c in list(st.store):
            if isinstance(c, tuple) and c[0] == 'go' and m.kind.get(c) in ('bytes', 'array'):
                m.nh += 1; st.store[c] = arg('g:%s@%d' % (c[1], m.nh))
    def then_(m, st, fr, p, kind, fs):
        """the settled value of p.then(f, g), p.catch(g) or p.finally(f)"""
        isf = lambda x: x is not None and x.op not in ('undef', 'null')
        f = fs[0] if fs and kind == 'then' else None
        g = fs[0] if fs and kind == 'catch' else fs[1] if len(fs) > 1 else None
        base = len(st.pc); saved = fr.exits; fr.exits = []
        v = m.await_(st, fr, p)
        ex = fr.exits; fr.exits = saved
        if kind == 'finally':
            run = lambda q: m.await_(q, fr, m.callval(q, fr, fs[0], [])) if fs and isf(fs[0]) else None
            m.onexits(fr, ex, run)
            if not st.dead: run(st)
            return v
        cell = ('then', len(m.prom), m.steps); outs = []
        errs = [(q, s) for q, w, s in ex if m.is_err(w)]
        if not isf(g): fr.exits += ex; errs = []
        else: fr.exits += [e for e in ex if not m.is_err(e[1])]
        if not st.dead:
            if isf(f): v = m.await_(st, fr, m.callval(st, fr, f, [v]))
            if not st.dead: st.store[cell] = v; outs.append((st.pc, st.store))
        if errs:
            es = St(); m.joinall(es, base, errs)
            es.pc = errs[0][0][:base]; es.know(or_(*[and_(*q[base:]) for q, _ in errs]))
            w = m.await_(es, fr, m.callval(es, fr, g, [raw('caught')]))
            if not es.dead: es.store[cell] = w; outs.append((es.pc, es.store))
        m.joinall(st, base, outs)
        return st.store.pop(cell, UNDEF) if not st.dead else BOT

    # ---------------------------------------------------------------- statements
    def hoist(m, ss, st, fr):
        for n in ss:
            if n['k'] == 'fndecl': m.declare(st, fr, n['f']['d'], m.closure(fr, n['f']))
            elif n['k'] == 'classdecl': m.declare(st, fr, n['c']['d'], m.classval(fr, n['c']))
    def closure(m, fr, fn):
        k = len(m.clos); m.clos[k] = (fn, fr, getattr(fr, 'this', None)); return raw('clo', k)
    def classval(m, fr, c):
        k = len(m.clos); m.clos[k] = (c, fr, None); return raw('cls', k)
    def declare(m, st, fr, d, v):
        c = ('v', fr.uid, d); fr.vars[d] = c; st.store[c] = v
    def x(m, n, st, fr):
        if st.dead: return
        m.steps += 1
        if m.steps > 400000: raise Limit('steps')
        getattr(m, 's_' + n['k'].replace('?', '_unknown'), m.s_bad)(n, st, fr)
    def s_bad(m, n, st, fr): m.poison(st, fr, n)
    def s_s_unknown(m, n, st, fr): m.poison(st, fr, n)
    def poison(m, st, fr, n):
        raise Undecided('statement %s at line %s' % (n.get('t') or n.get('k'), n.get('sp')))
    def s_block(m, n, st, fr):
        m.hoist(n['ss'], st, fr)
        for y in n['ss']:
            if st.dead: break
            m.x(y, st, fr)
    def s_empty(m, n, st, fr): pass
    def s_fndecl(m, n, st, fr): pass
    def s_classdecl(m, n, st, fr): pass
    def s_expr(m, n, st, fr):
        v = m.ev(n['e'], st, fr)
        if v is not None and v.op == 'promise' and v.args[0] >= 0 and not st.dead: m.adrift(st, v)
    def adrift(m, st, v):
        """an asynchronous call that nobody waits for: what it does before it first waits happens, its failure does not"""
        fn, args, this, parent = m.prom[v.args[0]]
        if not any(x == 'await' for x in m.kindsin(fn)): m.invoke0(st, fn, args, this, parent)
    def kindsin(m, n):
        if isinstance(n, list):
            for x in n: yield from m.kindsin(x)
        elif isinstance(n, dict):
            if n.get('k'): yield n['k']
            for x in n.values():
                if isinstance(x, (dict, list)): yield from m.kindsin(x)
    def s_var(m, n, st, fr):
        for d in n['ds']:
            v = m.ev(d['init'], st, fr) if d['init'] else UNDEF
            if st.dead: return
            m.bindpat(st, fr, d['pat'], v, d['ty'])
    def s_return(m, n, st, fr):
        v = m.ev(n['e'], st, fr) if n['e'] else UNDEF
        if st.dead: return
        if fr.fn and fr.fn['async'] or getattr(fr, 'asyncfn', False): v = m.await_(st, fr, v)
        if st.dead: return
        m.exit(st, fr, Ok(v))
    def s_throw(m, n, st, fr):
        v = m.ev(n['e'], st, fr)
        if st.dead: return
        m.throws.append((st.pc, m.reify(st, v), m.stack[-1] if m.stack else '?', n.get('sp')))
        m.exit(st, fr, Err(raw('thrown')))
    def s_if(m, n, st, fr):
        m.cond(n['c'], st, fr, lambda q: m.x(n['a'], q, fr) or UNIT, lambda q: (m.x(n['b'], q, fr) if n['b'] else None) or UNIT)
    def cond(m, c, st, fr, f1, f2):
        v = m.truth(c, st, fr)
        if st.dead: return BOT
        return m.branch(st, v, f1, f2)
    def joinall(m, st, base, outs):
        """continue from the states outs = [(pc, store)] (disjoint paths)"""
        outs = [(p, q) for p, q in outs]
        if not outs: st.dead = True; return
        k = or_(*[and_(*p[base:]) for p, _ in outs])
        store = outs[-1][1]
        for i in range(len(outs) - 2, -1, -1): store = m.merge_store(sep(outs[i][0][base:], [o[base:] for o, _ in outs[i + 1:]]), outs[i][1], store)
        st.store = dict(store); st.pc = outs[0][0][:base]; st.dead = False
        st.know(k)
    def find(m, fr, label, cont):
        for c in reversed(fr.loops):
            if label is not None:
                if c.label == label: return c
            elif not cont or not getattr(c, 'isswitch', False): return c
        return None
    def s_break(m, n, st, fr):
        c = m.find(fr, n['label'], False)
        if c is None: return m.poison(st, fr, n)
        c.breaks.append((st.pc, st.store, None)); st.dead = True
    def s_continue(m, n, st, fr):
        c = m.find(fr, n['label'], True)
        if c is None: return m.poison(st, fr, n)
        c.conts.append((st.pc, st.store)); st.dead = True
    def s_label(m, n, st, fr):
        if n['body']['k'] not in ('for', 'forof', 'while', 'do', 'forin'): return m.poison(st, fr, n)
        n['body']['label'] = n['label']; m.x(n['body'], st, fr)
    def s_while(m, n, st, fr): m.cloop(n, st, fr, n['c'], n['body'], None)
    def s_for(m, n, st, fr):
        if n['init']: m.x(n['init'], st, fr)
        if st.dead: return
        m.cloop(n, st, fr, n['c'], n['body'], n['u'])
    def s_do(m, n, st, fr): m.cloop(n, st, fr, n['c'], n['body'], None, True)
    def cloop(m, n, st, fr, c, body, upd, post=False):
        def bind(s, bv):
            outer = fr.loops[-1]
            if c is not None and not post:
                v = m.truth(c, s, fr)
                if s.dead: return
                b = s.fork(not_(v))
                if not b.dead: outer.breaks.append((b.pc, b.store, None))
                s.know(v)
                if s.dead: return
            base = len(s.pc)
            inner = LoopCtx(n.get('label'), None); fr.loops.append(inner)
            # break leaves the outer loop, continue reaches the update
            inner.breaks = outer.breaks
            try: m.x(body, s, fr)
            finally: fr.loops.pop()
            outs = list(inner.conts) + ([(s.pc, s.store)] if not s.dead else [])
            if not outs: s.dead = True; return
            if inner.conts: m.joinall(s, base, outs)
            if upd is not None and not s.dead: m.ev(upd, s, fr)
            if post and not s.dead:
                v = m.truth(c, s, fr)
                if s.dead: return
                b = s.fork(not_(v))
                if not b.dead: outer.breaks.append((b.pc, b.store, None))
                s.know(v)
        k = m.count(n, st, fr, c, upd, body)
        if k is not None: m.loop(st, fr, k[0], k[1], n.get('label'))
        else: m.loop(st, fr, INF, bind, n.get('label'))
    def count(m, n, st, fr, c, upd, body):
        """for (i = a; i < b; i++) with a counter and a bound that the body leaves alone: (iterations, body)"""
        if c is None or upd is None or n['k'] != 'for' or c['k'] != 'bin' or c['op'] not in ('<', '<='): return None
        if c['a']['k'] != 'id': return None
        d = c['a']['d']
        one_ = upd['k'] == 'upd' and upd['op'] == '+' and upd['a'].get('d') == d
        if not one_ and not (upd['k'] == 'asg' and upd['op'] == '+' and upd['a'].get('d') == d and upd['e'].get('int') == '1'): return None
        if d in m.assigned(body): return None
        if not m.stable(c['b'], body): return None
        cell = fr.find(d)
        if cell is None: return None
        a = st.store[cell]
        if not (a.op in ('int',) or nonneg(a)): return None
        b = m.ev(c['b'], st, fr)
        if st.dead or b.unk or TM.maybe_nan(b): return None
        N = sub(add(b, I(1 if c['op'] == '<=' else 0)), a)
        def bind(s, bv):
            s.store[cell] = add(a, bv)
            inner = LoopCtx(n.get('label'), None); outer = fr.loops[-1]; fr.loops.append(inner); inner.breaks = outer.breaks
            base = len(s.pc)
            try: m.x(body, s, fr)
            finally: fr.loops.pop()
            outs = list(inner.conts) + ([(s.pc, s.store)] if not s.dead else [])
            if not outs: s.dead = True; return
            if inner.conts: m.joinall(s, base, outs)
        st.store[cell] = a
        return (TM.mnt_pos(N), bind)
    def assigned(m, n):
        out = set()
        def w(y):
            if isinstance(y, list):
                for z in y: w(z)
            elif isinstance(y, dict):
                if y.get('k') in ('asg', 'upd') and y['a']['k'] == 'id': out.add(y['a']['d'])
                if y.get('k') == 'pexp' and y['e']['k'] == 'id': out.add(y['e']['d'])
                for z in y.values():
                    if isinstance(z, (dict, list)): w(z)
        w(n); return out
    def stable(m, e, body):
        """e keeps its value while body runs"""
        if e['k'] in ('num',): return True
        if e['k'] == 'id': return e['d'] not in m.assigned(body)
        if e['k'] == 'bin': return m.stable(e['a'], body) and m.stable(e['b'], body)
        if e['k'] == 'un': return m.stable(e['a'], body)
        if e['k'] == 'mem' and e['name'] in ('length', 'size', 'byteLength'):
            o = e['o']
            if o['k'] == 'this' or o['k'] == 'mem': return kinds(o.get('ty')) <= {'u8', 'u32', 'buf', 'string'}
            return o['k'] == 'id' and o['d'] not in m.assigned(body) and (kinds(o.get('ty')) <= {'u8', 'u32', 'buf', 'string'} or not m.grows(o['d'], body))
        if e['k'] == 'mem' and e['o']['k'] == 'this': return not m.setsthis(body)
        if e['k'] == 'mem' and e['o']['k'] == 'id': return e['o']['d'] not in m.assigned(body) and not m.grows(e['o']['d'], body)
        return False
    def setsthis(m, n):
        if isinstance(n, list): return any(m.setsthis(x) for x in n)
        if isinstance(n, dict):
            if n.get('k') in ('asg', 'upd') and n['a']['k'] == 'mem' and n['a']['o']['k'] == 'this': return True
            return any(m.setsthis(x) for x in n.values() if isinstance(x, (dict, list)))
        return False
    def grows(m, d, n):
        """body may change the object held by variable d"""
        if isinstance(n, list): return any(m.grows(d, x) for x in n)
        if isinstance(n, dict):
            k = n.get('k')
            if k == 'call':
                if any(a.get('k') == 'id' and a['d'] == d for a in n['args']): return True
                f = n['f']
                if f['k'] == 'mem' and f['o'].get('k') == 'id' and f['o']['d'] == d and f['name'] in TsProg.MUT: return True
            if k in ('asg', 'upd') and n['a']['k'] in ('mem', 'idx') and n['a']['o'].get('k') == 'id' and n['a']['o']['d'] == d: return True
            return any(m.grows(d, x) for x in n.values() if isinstance(x, (dict, list)))
        return False
    def s_forof(m, n, st, fr):
        it = m.ev(n['e'], st, fr)
        if st.dead: return
        def go(st, it):
            s = m.iter(st, fr, it, n['e'].get('ty', ''))
            ety = m.elemty(n['e'].get('ty', ''))
            def body(q, e):
                if q.dead: return
                inner = LoopCtx(n.get('label'), None)
                if fr.loops: inner.breaks = fr.loops[-1].breaks
                fr.loops.append(inner); base = len(q.pc)
                try:
                    m.bindpat(q, fr, n['pat'], e, ety)
                    m.x(n['body'], q, fr)
                finally: fr.loops.pop()
                outs = list(inner.conts) + ([(q.pc, q.store)] if not q.dead else [])
                if not outs: q.dead = True; return
                if inner.conts: m.joinall(q, base, outs)
            if s.op == 'arr' and not m.hasbreak(n['body']):
                for e in s.args:
                    if st.dead: return UNIT
                    body(st, e)
                return UNIT
            m.foreach(st, fr, s, body, n.get('label') or '%forof', None)
            return UNIT
        m.lift(st, it, go)
    def hasbreak(m, n):
        if isinstance(n, list): return any(m.hasbreak(x) for x in n)
        if isinstance(n, dict): return n.get('k') in ('break',) or n.get('k') != 'fn' and any(m.hasbreak(x) for x in n.values() if isinstance(x, (dict, list)))
        return False
    def elemty(m, t):
        t = t.strip()
        if t.endswith('[]'): return t[:-2].strip('()')
        r = re.match(r'(?:MapIterator|IterableIterator|Array|ReadonlyArray|SetIterator|ArrayIterator|Set|Iterable)<(.*?)(?:, any, any)?>$', t)
        if r: return r.group(1)
        r = re.match(r'(?:Map|ReadonlyMap)<(.*)>$', t)
        if r: return '[%s]' % r.group(1)
        if t.startswith('Uint'): return 'number'
        return 'any'
    def s_forin(m, n, st, fr):
        o = m.ev(n['e'], st, fr)
        s = m.okeys(st, o)
        n2 = dict(n)
        m.foreach(st, fr, s, lambda q, e: (m.bindpat(q, fr, n['pat'], e, 'string'), m.x(n['body'], q, fr)), '%forin', None) if not m.hasbreak(n['body']) and 'continue' not in json.dumps(n['body']) else m.poison(st, fr, n)
    def s_switch(m, n, st, fr):
        v = m.ev(n['e'], st, fr)
        if st.dead: return
        ctx = LoopCtx(None, None); ctx.isswitch = True; fr.loops.append(ctx)
        base = len(st.pc)
        cs = n['cs']
        di = next((i for i, c in enumerate(cs) if c['e'] is None), None)
        order = [i for i in range(len(cs)) if cs[i]['e'] is not None]
        for c in cs: m.hoist(c['ss'], st, fr)
        def run(q, i):
            for c in cs[i:]:
                for y in c['ss']:
                    if q.dead: return UNIT
                    m.x(y, q, fr)
            return UNIT
        def go(q, k):
            if k == len(order): return run(q, di) if di is not None else UNIT
            c = m.streq(v, m.ev(cs[order[k]]['e'], q, fr), n['e'].get('ty', ''), cs[order[k]]['e'].get('ty', ''))
            return m.branch(q, c, lambda z: run(z, order[k]), lambda z: go(z, k + 1))
        go(st, 0)
        fr.loops.pop()
        outs = [(p, q) for p, q, _ in ctx.breaks] + ([(st.pc, st.store)] if not st.dead else [])
        m.joinall(st, base, outs)
    def s_try(m, n, st, fr):
        base = len(st.pc); saved = fr.exits; fr.exits = []
        if n['fin'] is not None:
            if any(y['k'] in ('return', 'throw', 'break', 'continue') for y in n['fin']['ss']): fr.exits = saved; return m.poison(st, fr, n)
            m.s_try(dict(n, fin=None), st, fr)
            ex = fr.exits; fr.exits = saved
            m.onexits(fr, ex, lambda q: m.x(n['fin'], q, fr))
            m.x(n['fin'], st, fr)
            return
        m.x(n['body'], st, fr)
        ex = fr.exits; fr.exits = saved
        errs = [(p, s) for p, v, s in ex if m.is_err(v)]
        fr.exits += [e for e in ex if not m.is_err(e[1])]
        outs = [(st.pc, st.store)] if not st.dead else []
        if n['h'] is None: fr.exits += [e for e in ex if m.is_err(e[1])]
        elif errs:
            es = St(); m.joinall(es, base, errs)
            es.pc = errs[0][0][:base]; es.know(or_(*[and_(*p[base:]) for p, _ in errs]))
            if n['param'] is not None: m.bindpat(es, fr, n['param'], raw('caught'), 'any')
            m.x(n['h'], es, fr)
            if not es.dead: outs.append((es.pc, es.store))
        m.joinall(st, base, outs)
    def onexits(m, fr, ex, f):
        """f on every path that leaves through one of the exits ex, before it leaves"""
        for p, v, q in ex:
            es = St(); es.pc = p; es.store = dict(q); f(es)
            if not es.dead: fr.exits.append((es.pc, v, es.store))
    def s_enum(m, n, st, fr): m.declare(st, fr, n['d'], m.enumval(n))
    def enumval(m, n): return adt('obj', {x['name']: (S(x['v']) if isinstance(x['v'], str) else I(x['v'])) for x in n['ms']})

    # ---------------------------------------------------------------- patterns
    def bindpat(m, st, fr, p, v, ty=''):
        if st.dead: return
        k = p['k']
        if k == 'pid': m.declare(st, fr, p['d'], v)
        elif k == 'pexp': m.assign(st, fr, p['e'], v)
        elif k == 'pobj':
            used = set()
            for e in p['els']:
                if e.get('rest'): m.bindpat(st, fr, e['pat'], unk('rest')); continue
                nm = e['name'].get('s')
                if nm is None: x = m.getidx(st, fr, v, m.ev(e['name']['e'], st, fr), ty, 'any')
                else: x = m.getprop(st, fr, v, nm, ty, 'any')
                if e['def'] is not None: x = m.default(st, fr, x, e['def'], 'any')
                m.bindpat(st, fr, e['pat'], x, 'any')
        elif k == 'parr':
            tys = None
            if ty.startswith('['): tys = split_top(ty[1:-1])
            src = v
            for i, e in enumerate(p['els']):
                if e is None: continue
                if e.get('rest'):
                    s = m.iter(st, fr, src, ty); m.bindpat(st, fr, e['pat'], m.alloc(st, 'array', sl(s, I(i), ln(s)))); continue
                t = tys[i] if tys and i < len(tys) else m.elemty(ty)
                x = m.getidx(st, fr, src, I(i), ty, t, tupled=ty.startswith('['))
                if e['def'] is not None: x = m.default(st, fr, x, e['def'], 'any')
                m.bindpat(st, fr, e['pat'], x, t)
        else: m.poison(st, fr, p)

    # ---------------------------------------------------------------- expressions
    def ev(m, n, st, fr):
        if st.dead: return BOT
        m.steps += 1
        if m.steps > 400000: raise Limit('steps')
        h = getattr(m, 'e_' + n['k'].replace('?', 'unknown'), None)
        if h is None: return unk('expr', S(n['k']))
        return h(n, st, fr)
    def e_unknown(m, n, st, fr): return unk('expr', S(n.get('t', '?')))
    def e_num(m, n, st, fr):
        return I(int(n['int'])) if n['int'] is not None else ext('float', S(n['v']))
    def e_str(m, n, st, fr): return S(n['v'])
    def e_bool(m, n, st, fr): return B(n['v'])
    def e_undef(m, n, st, fr): return UNDEF
    def e_null(m, n, st, fr): return NULL
    def e_regex(m, n, st, fr): return raw('regex', n['v'])
    def e_this(m, n, st, fr):
        f = fr
        while f is not None and f.fn is not None and f.fn.get('arrow') and f.parent is not None: f = f.parent
        t = getattr(fr, 'this', None)
        return t if t is not None else unk('this')
    def e_fn(m, n, st, fr): return m.closure(fr, n)
    def e_class(m, n, st, fr): return m.classval(fr, n)
    def e_id(m, n, st, fr):
        c = fr.find(n['d'])
        if c is not None: return m.known(st, st.store.get(c, BOT))
        return m.global_(st, n['d'])
    def global_(m, st, d):
        t = m.prog.decls.get(d)
        if t is None: return unk('name', S(d))
        if t[0] == 'fn': return raw('fnv', d)
        if t[0] == 'class': return m.classval(None, t[1])
        if t[0] == 'enum': return m.enumval(t[1])
        if ('g', d) in st.store: return m.known(st, st.store[('g', d)])
        v = m.glob.get(d)
        if v is None:
            s2 = St(); m2 = TS(m.prog); m2.inmod = True; m2.glob = m.glob; m2.nh = 0
            m.glob[d] = unk('cyclic')
            f2 = Frame({'async': False, 'd': '?', 'name': ''}); f2.this = None
            init = t[1]['init']
            if init is None: v = UNDEF
            elif init['k'] == 'fn':
                v = m.closure(None, init); m.glob[d] = v; return v
            else:
                v = m2.ev(init, s2, f2)
                if t[1]['pat']['k'] != 'pid': v = m2.patpart(s2, f2, t[1]['pat'], v, d)
                v = m2.reify(s2, v)
                if any(x.op in ('clo', 'promise', 'cls') for x in walk(v)): v = unk('module-value')
                if d in m.prog.mutobjs and v.op not in ('g', 'x', 'fnv'): v = m.gobj(st, t, v)
            m.glob[d] = v
        if v.op == 'gobjv': return m.gobjref(st, v)
        return v
    def gobj(m, st, t, v):
        k = 'map' if v.op == 'map' else 'array' if v.op in ('arr', 'seq') else 'bytes' if v.op in ('rep', 'bytes') else 'object'
        return raw('gobjv', t[4]['name'], k, ln(v) if k == 'bytes' else UNDEF)
    def gobjref(m, st, v):
        """a module-level object that functions modify: its content at entry is whatever earlier calls left"""
        c = ('go', v.args[0])
        if c not in st.store:
            st.store[c] = a = arg('g:' + v.args[0])
            m.kind[c] = v.args[1]
        if v.args[1] == 'bytes': return raw('ta', 'u8', c, I(0), v.args[2])
        return raw('jref', c)
    def patpart(m, st, fr, p, v, d):
        m.bindpat(st, fr, p, v, 'any')
        c = fr.find(d)
        return st.store[c] if c else unk('pattern')
    def e_glob(m, n, st, fr):
        if n['name'] in ('NaN', 'Infinity'): return ext(n['name'])
        return raw('g', {'globalThis': '', 'window': '', 'self': ''}.get(n['name'], n['name']))
    def e_ext(m, n, st, fr): return raw('x', n['mod'], n['name'])
    def e_module(m, n, st, fr): return raw('module', n['file'])
    def e_import(m, n, st, fr):
        if n.get('file'): return raw('promise', -2, raw('module', n['file']))
        if n['e']['k'] == 'str': return raw('promise', -2, raw('x', n['e']['v'], '*'))
        return unk('import')
    def e_tmpl(m, n, st, fr):
        ps = []
        for p in n['ps']:
            v = m.ev(p, st, fr)
            if st.dead: return BOT
            ps.append(m.tostring(st, fr, v, p.get('ty', '')))
        return cat(*ps)
    def tostring(m, st, fr, v, ty):
        if v.op == 'ite' and not m.needlift(v): return ite(v.args[0], m.tostring(st, fr, v.args[1], ty), m.tostring(st, fr, v.args[2], ty))
        v = m.reify(st, v)
        k = m.jkind(v, ty)
        if k == 'string': return v
        if v.op == 'int': return S(str(v.args[0]))
        if k in ('number', 'bigint'): return tostr(v)
        if v.op == 'bool': return S('true' if v.args[0] else 'false')
        return ext('jsstr', v)
    def e_arr(m, n, st, fr):
        es = []; plain = True
        for e in n['es']:
            if 'spread' in e:
                v = m.ev(e['spread'], st, fr)
                if st.dead: return BOT
                s = m.iter(st, fr, v, e['spread'].get('ty', '')); plain = plain and s.op == 'arr'
                es.append(s)
            else:
                v = m.ev(e, st, fr)
                if st.dead: return BOT
                es.append(raw('arr', m.store_val(st, v)))
        if plain: return m.alloc(st, 'array', raw('arr', *[x for s in es for x in s.args]))
        return m.alloc(st, 'array', seq(*es))
    def store_val(m, st, v): return m.reify(st, v)
    def e_obj(m, n, st, fr):
        d = {}; basev = None
        for p in n['ps']:
            if 'bad' in p: return unk('obj')
            if 'spread' in p:
                v = m.reify(st, m.ev(p['spread'], st, fr))
                if st.dead: return BOT
                if v.op == 'adt': d.update(dict(v.args[1]))
                elif basev is None and not d: basev = v
                elif basev is None: basev = ext('objmerge', adt('obj', d), v); d = {}
                else:
                    for k, x in d.items(): basev = setfld(basev, k, m.reify(st, x))
                    basev = ext('objmerge', basev, v); d = {}
                continue
            v = m.ev(p['e'], st, fr)
            if st.dead: return BOT
            nm = p['name'].get('s')
            if nm is None:
                kx = m.ev(p['name']['e'], st, fr)
                if kx.op != 'str': return unk('computed')
                nm = kx.args[0]
            d[nm] = v
        t = adt('obj', d)
        if basev is not None:
            t = basev
            for k, v in d.items(): t = setfld(t, k, v)
        return m.alloc(st, 'object', t)
    def e_cond(m, n, st, fr):
        return m.cond(n['c'], st, fr, lambda q: m.ev(n['a'], q, fr), lambda q: m.ev(n['b'], q, fr))
    def e_await(m, n, st, fr):
        v = m.ev(n['e'], st, fr)
        return m.await_(st, fr, v)
    def e_void(m, n, st, fr): m.s_expr(n, st, fr); return UNDEF
    def e_typeof(m, n, st, fr):
        if n['e']['k'] == 'glob': return ext('typeofglobal', S(n['e']['name']))
        v = m.ev(n['e'], st, fr)
        return raw('typeof', v, n['e'].get('ty', ''))
    def e_delete(m, n, st, fr): return unk('delete')
    def e_dasg(m, n, st, fr):
        v = m.ev(n['e'], st, fr)
        m.bindpat(st, fr, n['pat'], v, n['e'].get('ty', ''))
        return v
    def e_asg(m, n, st, fr):
        o = n['op']
        if o in ('??', '||', '&&'):
            cur = m.ev(n['a'], st, fr)
            if st.dead: return BOT
            c = m.isnullish(cur, n['a'].get('ty', '')) if o == '??' else m.truthy(cur, n['a'].get('ty', ''))
            if o == '||': c = not_(c)
            def do(q):
                v = m.ev(n['e'], q, fr)
                if not q.dead: m.assign(q, fr, n['a'], v)
                return v
            return m.branch(st, c, do, lambda q: cur)
        if o:
            cur = m.ev(n['a'], st, fr)
            e = m.ev(n['e'], st, fr)
            if st.dead: return BOT
            v = m.binop(st, fr, o, cur, e, n['a'].get('ty', ''), n['e'].get('ty', ''))
        else: v = m.ev(n['e'], st, fr)
        if st.dead: return BOT
        m.assign(st, fr, n['a'], v)
        return v
    def e_upd(m, n, st, fr):
        cur = m.ev(n['a'], st, fr)
        if st.dead: return BOT
        v = m.binop(st, fr, n['op'], cur, I(1), n['a'].get('ty', ''), 'number')
        m.assign(st, fr, n['a'], v)
        return v if n['pre'] else cur
    def assign(m, st, fr, t, v):
        if st.dead: return
        if t['k'] == 'id':
            c = fr.find(t['d'])
            if c is None:
                c = ('g', t['d'])
                if c not in st.store: return m.poison(st, fr, t)
                m.gwrites.append((t['name'], st.pc, v, st.store.get(('init',), FALSE)))
            else:
                # a fresh object replacing the one the variable alone refers to: keep the cell, replace its content
                old = st.store.get(c)
                if old is not None and old.op == 'jref' and v.op == 'jref' and old is not v and m.kind[old.args[0]] == m.kind[v.args[0]] and m.sole(st, old, c) and m.sole(st, v, None):
                    st.store[old.args[0]] = st.store[v.args[0]]; return
                if old is not None and old.op == 'ta' and v.op == 'ta' and old is not v and old.args[0] == v.args[0] and m.sole(st, raw('buf', old.args[1]), c, old) and m.sole(st, raw('buf', v.args[1]), None, v) and not isinstance(old.args[1], T):
                    st.store[old.args[1]] = m.tabytes(st, v)
                    st.store[c] = raw('ta', old.args[0], old.args[1], I(0), v.args[3]); return
            st.store[c] = v
        elif t['k'] == 'mem':
            o = m.ev(t['o'], st, fr)
            if not st.dead: m.setprop(st, fr, o, t['name'], v)
        elif t['k'] == 'idx':
            o = m.ev(t['o'], st, fr); i = m.ev(t['i'], st, fr)
            if not st.dead: m.setidx(st, fr, o, i, v, t['o'].get('ty', ''))
        else: m.poison(st, fr, t)
    def sole(m, st, ref, cell, alt=None):
        """no other cell refers to this object"""
        h = ref.args[0]
        for c, w in st.store.items():
            if c == cell or c == h: continue
            if w.op in ('sym', 'int', 'str', 'arg'): continue
            for x in walk(w):
                if x.op in ('jref', 'buf') and x.args[0] == h or x.op == 'ta' and x.args[1] == h or x.op == 'dv' and x.args[0] == h: return False
        return True
    def e_un(m, n, st, fr):
        o = n['op']
        if o == '!': return not_(m.truth(n['a'], st, fr))
        v = m.ev(n['a'], st, fr)
        if st.dead: return BOT
        if o == '-': return neg(v)
        if o == '+': return m.tonumber(st, v, n['a'].get('ty', ''))
        if o == '~': return sub(neg(v), I(1))
        return unk('unary')
    def e_bin(m, n, st, fr):
        o = n['op']
        if o == '&&' or o == '||':
            a = m.ev(n['a'], st, fr)
            if st.dead: return BOT
            c = m.truthy(a, n['a'].get('ty', ''))
            if o == '&&': return m.branch(st, c, lambda q: m.ev(n['b'], q, fr), lambda q: a)
            return m.branch(st, c, lambda q: a, lambda q: m.ev(n['b'], q, fr))
        if o == '??':
            a = m.ev(n['a'], st, fr)
            if st.dead: return BOT
            return m.branch(st, m.isnullish(a, n['a'].get('ty', '')), lambda q: m.ev(n['b'], q, fr), lambda q: m.known(q, a))
        if o == ',': m.ev(n['a'], st, fr); return m.ev(n['b'], st, fr)
        a = m.ev(n['a'], st, fr); b = m.ev(n['b'], st, fr)
        if st.dead: return BOT
        if o in ('===', '!==', '==', '!='):
            c = m.streq(a, b, n['a'].get('ty', ''), n['b'].get('ty', '')) if len(o) == 3 else m.looseeq(a, b, n['a'].get('ty', ''), n['b'].get('ty', ''))
            return c if o[0] == '=' else not_(c)
        if o == 'instanceof': return m.instanceof(st, a, n['b'], n['a'].get('ty', ''))
        if o == 'in': return m.hasprop(st, b, a)
        return m.binop(st, fr, o, a, b, n['a'].get('ty', ''), n['b'].get('ty', ''))
    def truth(m, n, st, fr):
        """the condition under which the expression is truthy"""
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            a = m.truth(n['a'], st, fr)
            if st.dead: return FALSE
            if n['op'] == '&&': return m.branch(st, a, lambda q: m.truth(n['b'], q, fr), lambda q: FALSE)
            return m.branch(st, a, lambda q: TRUE, lambda q: m.truth(n['b'], q, fr))
        if n['k'] == 'un' and n['op'] == '!': return not_(m.truth(n['a'], st, fr))
        v = m.ev(n, st, fr)
        if st.dead: return FALSE
        return m.truthy(v, n.get('ty', ''))
    def truthy(m, v, ty):
        o = v.op
        if o == 'ite': return ite(v.args[0], m.truthy(v.args[1], ty), m.truthy(v.args[2], ty))
        if o == 'bool' or TM.isbool(v): return v
        if o in ('undef', 'null', 'bot'): return FALSE
        if o in HND or o in ('clo', 'fnv', 'adt', 'arr', 'map', 'promise', 'cls', 'bound', 'g', 'x', 'module', 'caught'): return TRUE
        if o == 'str': return B(v.args[0] != '')
        if o == 'int': return B(v.args[0] != 0)
        k = kinds(ty)
        k0 = k - {'undefined', 'null'}
        nn = m.notnull(v, ty)
        if k0 == {'boolean'}: return and_(nn, v)
        if k0 <= {'number', 'bigint'} and k0:
            if TM.maybe_nan(v): return or_(raw('lt', v, I(0)), raw('lt', I(0), v))
            return and_(nn, not_(eq(v, I(0))))
        if k0 == {'string'}: return and_(nn, not_(eq(ln(v), I(0))))
        if k0 and not k0 & {'any', 'string', 'number', 'bigint', 'boolean'}: return nn
        if o in ('len', 'num', 'poly', 'udiv', 'urem', 'fmod', 'srem', 'shr'): return not_(eq(v, I(0)))
        return ext('truthy', v)
    def notnull(m, v, ty):
        k = kinds(ty); r = TRUE
        if 'undefined' in k or 'any' in k or m.plainlist(v): r = and_(r, not_(m.isundef(v, ty)))
        if 'null' in k or 'any' in k: r = and_(r, not_(m.isnull(v, ty)))
        return r
    def isundef(m, v, ty=''):
        o = v.op
        if o == 'ite': return ite(v.args[0], m.isundef(v.args[1], ty), m.isundef(v.args[2], ty))
        if o == 'undef': return TRUE
        if o == 'bot': return FALSE
        if not m.dyn(v) or o == 'arg' and v.args[0] in m.defargs: return FALSE
        if o == 'pl' and v.args[0].op == 'get' and 'any' not in kinds(ty): return FALSE       # map values are never undefined
        if o == 'fld' and v.args[1] == '0' and v.args[0].op == 'idx' and v.args[0].args[0].op == 'ext' and v.args[0].args[0].args[0] in ('objentries', 'entries'): return FALSE
        k = kinds(ty)
        if m.plainlist(v): return not_(m.settle(and_(ge(v.args[1], I(0)), lt(v.args[1], ln(v.args[0])))))       # only past the end
        if 'undefined' in k or 'any' in k: return m.isk(v, 'Undefined')
        return FALSE
    def plainlist(m, v):
        """an element of a list whose elements are strings"""
        return v.op == 'idx' and v.args[0].op == 'ext' and v.args[0].args[0] == 'split'
    def isnull(m, v, ty=''):
        o = v.op
        if o == 'ite': return ite(v.args[0], m.isnull(v.args[1], ty), m.isnull(v.args[2], ty))
        if o == 'null': return TRUE
        if not m.dyn(v) or m.plainlist(v): return FALSE
        k = kinds(ty)
        if 'null' in k or 'any' in k: return m.isk(v, 'Null')
        return FALSE
    def isk(m, v, k):
        """v is of kind k; with m.shape = D, inputs are assumed to be nested at most D deep and to contain neither null nor undefined"""
        if m.shape is not None and k in ('Array', 'Object', 'Null', 'Undefined'):
            n, x = 0, v
            while x.op in ('idx', 'fld', 'ext'):
                if x.op == 'ext' and x.args[0] not in ('objentries', 'entries', 'objget', 'objvalues', 'js_parse', 'sorted', 'objkeys'): break
                n += x.op == 'idx' or x.op == 'ext' and x.args[0] == 'objget'
                x = x.args[1] if x.op == 'ext' else x.args[0]
            if x.op == 'arg' and n and (k in ('Null', 'Undefined') or n > m.shape): return FALSE
        return isv(v, VV[k])
    def isnullish(m, v, ty): return or_(m.isundef(v, ty), m.isnull(v, ty))
    def dyn(m, v):
        """a value whose runtime kind is not fixed by its representation"""
        return v.op in ('arg', 'fld', 'idx', 'pl', 'rec', 'prop', 'unk') or v.op == 'ext' and v.args[0] in ('js_parse', 'objget')
    def streq(m, a, b, ta, tb):
        if a.op == 'ite' and not TM.isbool(a): return ite(a.args[0], m.streq(a.args[1], b, ta, tb), m.streq(a.args[2], b, ta, tb))
        if b.op == 'ite' and not TM.isbool(b): return ite(b.args[0], m.streq(a, b.args[1], ta, tb), m.streq(a, b.args[2], ta, tb))
        if a.op == 'typeof' or b.op == 'typeof':
            if b.op == 'typeof': a, b, ta, tb = b, a, tb, ta
            if b.op == 'str': return m.hastype(a.args[0], b.args[0], a.args[1])
            return unk('typeof')
        if b.op == 'undef': return m.isundef(a, ta)
        if a.op == 'undef': return m.isundef(b, tb)
        if b.op == 'null': return m.isnull(a, ta)
        if a.op == 'null': return m.isnull(b, tb)
        if a.op in HND and b.op in HND: return B(a is b)
        if b.op == 'str' and b.args[0] == '' and kinds(ta) == {'string'}: return eq(ln(a), I(0))
        if a.op == 'str' and a.args[0] == '' and kinds(tb) == {'string'}: return eq(ln(b), I(0))
        if TM.maybe_nan(a) or TM.maybe_nan(b):
            if a is b: return not_(m.isnan(a))
            return raw('eqn', *sorted((a, b), key=lambda x: x.id))
        return eq(a, b)
    def looseeq(m, a, b, ta, tb):
        if b.op in ('undef', 'null'): return m.isnullish(a, ta)
        if a.op in ('undef', 'null'): return m.isnullish(b, tb)
        ka, kb = m.jkind(a, ta), m.jkind(b, tb)
        if ka == kb or {ka, kb} <= {'number', 'bigint'}: return m.streq(a, b, ta, tb)
        return ext('looseeq', a, b)
    def isnan(m, v): return and_(not_(ge(v, I(0))), not_(lt(v, I(0)))) if TM.maybe_nan(v) else FALSE
    def hastype(m, v, t, ty):
        if v.op == 'ite': return ite(v.args[0], m.hastype(v.args[1], t, ty), m.hastype(v.args[2], t, ty))
        k = m.jkind(v, ty) if v.op != 'arg' or len(kinds(ty)) == 1 else 'any'
        if k not in ('any',):
            kk = kinds(ty) if m.dyn(v) else {k}
            if len(kk) == 1:
                js = {'string': 'string', 'number': 'number', 'bigint': 'bigint', 'boolean': 'boolean', 'undefined': 'undefined', 'function': 'function'}.get(k, 'object')
                return B(js == t)
        if v.op == 'pl' and k != 'any' and m.jkind(v) == k: return B(({'string', 'number', 'bigint', 'boolean', 'undefined', 'function'} & {k} or {'object'}) == {t})
        one_ = {'string': 'String', 'number': 'Number', 'bigint': 'BigInt', 'boolean': 'Boolean', 'undefined': 'Undefined', 'function': 'Function'}
        if t in one_: return m.isk(v, one_[t])
        if t == 'object': return or_(m.isk(v, 'Array'), m.isk(v, 'Object'), m.isk(v, 'Null'))
        return FALSE
    def isarray(m, st, v, ty):
        if v.op == 'ite': return ite(v.args[0], m.isarray(st, v.args[1], ty), m.isarray(st, v.args[2], ty))
        k = m.jkind(v, ty)
        if v.op == 'pl' and k != 'any' and m.jkind(v) == k: return B(k == 'array')
        if m.dyn(v):
            kk = kinds(ty)
            if kk == {'array'}: return TRUE
            if not kk & {'array', 'any', 'object'}: return FALSE
            return m.isk(v, 'Array')
        return B(k == 'array')
    def instanceof(m, st, v, cn, ty):
        nm = cn.get('name', '')
        if v.op == 'caught': return ext('instanceof', S(nm), v)
        k = m.jkind(v, ty)
        want = {'Uint8Array': 'u8', 'Uint32Array': 'u32', 'ArrayBuffer': 'buf', 'Map': 'map', 'Set': 'set', 'DataView': 'dv', 'Array': 'array', 'Promise': 'promise'}.get(nm)
        if nm == 'Array': return m.isarray(st, v, ty)
        if want and k != 'any': return B(k == want)
        return ext('instanceof', S(nm), m.reify(st, v))
    def binop(m, st, fr, o, a, b, ta, tb):
        if a.op == 'ite' and m.needlift(a) or b.op == 'ite' and m.needlift(b):
            a, b = m.known(st, a), m.known(st, b)
        ka, kb = m.jkind(a, ta), m.jkind(b, tb)
        if o == '+':
            if ka == 'string' or kb == 'string':
                return cat(m.tostring(st, fr, a, ta), m.tostring(st, fr, b, tb))
            if ka in ('number', 'bigint') and kb in ('number', 'bigint'): return bytes_poly(add(a, b))
            if a.op in ('int', 'poly') or b.op in ('int', 'poly'): return bytes_poly(add(a, b))
            return ext('jsadd', m.reify(st, a), m.reify(st, b)) if 'any' in (ka, kb) else unk('add')
        big = 'bigint' in kinds(ta) or 'bigint' in kinds(tb)
        if o in ('<', '<=', '>', '>='):
            if ka == 'string' and kb == 'string': return ext('strcmp', S(o), a, b)
            return {'<': lt, '<=': le, '>': gt, '>=': ge}[o](a, b)
        if o == '-': return sub(a, b)
        if o == '*': return bytes_poly(mul(a, b))
        if o == '/':
            x, y = cst(a), cst(b)
            if big:
                if nonneg(a) and y: return m.div(a, y)
                if x is not None and y: return I(int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1))
                return raw('sdiv', a, b)
            if y and a.op == 'poly' and all(c % y == 0 for _, c in a.args): return udiv(a, b)
            if x is not None and y and x % y == 0: return I(x // y)
            return raw('fdiv', a, b)
        if o == '%': return srem(a, b) if not (nonneg(a) and cst(b)) else m.rem(a, cst(b))
        if o == '**':
            x, y = cst(a), cst(b)
            if x is not None and y is not None and 0 <= y <= 4096: return I(x ** y)
            if x == 2: return raw('pow2', b)
            return ext('pow', a, b)
        if o == '&':
            x, y = cst(a), cst(b)
            if x is not None: a, b, x, y = b, a, y, x
            if y is not None and x is None and y >= 0 and (y + 1) & y == 0: return m.rem(a, y + 1)
            return band(a, b)
        if o in ('|', '^'):
            x, y = cst(a), cst(b)
            if x is not None and y is not None: return I(x | y if o == '|' else x ^ y)
            if y == 0: return a if big else m.i32(a)
            if not big and (a.op == 'trunc' or b.op == 'trunc') and m.disjoint(m.un32(a), m.un32(b)): return m.i32(bytes_poly(add(m.un32(a), m.un32(b))))
            if m.disjoint(a, b): return bytes_poly(add(a, b))
            return raw('bor' if o == '|' else 'bxor', *sorted((a, b), key=lambda t: t.id))
        if o == '<<':
            y = cst(b)
            if y is not None and y >= 0:
                return mul(a, bits(y)) if big else m.i32(mul(m.un32(a), bits(y)))
            return raw('shl', a, b)
        if o == '>>':
            x, y = cst(a), cst(b)
            if x is not None and y is not None: return I(x >> y)
            if big or nonneg(a): return shr(a, b)
            return raw('sar', a, b)
        if o == '>>>':
            a = m.un32(a)
            if cst(b) == 0:
                if nonneg(a) and nonneg(sub(I((1 << 32) - 1), a)): return a
                return trunc('u32', a)
            if nonneg(a): return shr(a, b)
            return raw('sar', trunc('u32', a), b)
        return unk('binop')
    def div(m, a, y):
        if y & (y - 1) == 0: return shr(a, I(y.bit_length() - 1))
        return udiv(a, I(y))
    def rem(m, a, y):
        k = y.bit_length() - 1
        if y & (y - 1) == 0 and k:
            return limb(a, I(0), k)
        return srem(a, I(y))
    def un32(m, a): return a.args[1] if a.op == 'trunc' and a.args[0] in ('i32', 'u32') else a
    def i32(m, a): return a if nonneg(a) and nonneg(sub(I((1 << 31) - 1), a)) else trunc('i32', a)
    def disjoint(m, a, b): return disjoint(a, b)
    def tonumber(m, st, v, ty):
        k = m.jkind(v, ty)
        if k in ('number', 'bigint'): return v
        if k == 'string': return ext('Number', v) if v.op != 'str' or not re.fullmatch(r'-?\d+', v.args[0]) else I(int(v.args[0]))
        if k == 'boolean': return ite(v, I(1), I(0))
        return ext('Number', m.reify(st, v))

    # ---------------------------------------------------------------- properties
    def e_mem(m, n, st, fr):
        o = m.ev(n['o'], st, fr)
        if st.dead: return BOT
        if n['opt']:
            return m.branch(st, m.isnullish(o, n['o'].get('ty', '')), lambda q: UNDEF, lambda q: m.getprop(q, fr, m.known(q, o), n['name'], n['o'].get('ty', ''), n.get('ty', '')))
        return m.getprop(st, fr, o, n['name'], n['o'].get('ty', ''), n.get('ty', ''))
    def getprop(m, st, fr, o, name, oty, ty):
        if o.op == 'ite': 
            o = m.known(st, o)
            if o.op == 'ite': return m.branch(st, o.args[0], lambda q: m.getprop(q, fr, o.args[1], name, oty, ty), lambda q: m.getprop(q, fr, o.args[2], name, oty, ty))
        if st.dead: return BOT
        if o.op == 'g':
            p = (o.args[0] + '.' + name).lstrip('.')
            if p == 'Number.MAX_SAFE_INTEGER': return I(2 ** 53 - 1)
            if p.endswith('.BYTES_PER_ELEMENT'): return I(ES.get(TA.get(o.args[0]), 1))
            return raw('g', p)
        if o.op == 'x': 
            if o.args[1] == '*': return raw('x', o.args[0], name)
            if o.args[1] == 'webcrypto': return raw('g', 'crypto.' + name)
            return unk('extprop')
        if o.op == 'module':
            e = m.prog.files.get(o.args[0], {}).get('exports', {}).get(name)
            if e is None: return UNDEF
            return m.global_(st, e['d']) if e['k'] == 'id' else raw('x', e['mod'], e['name'])
        if o.op in ('undef', 'null'):
            m.throwif(st, fr, TRUE); return BOT
        if o.op == 'caught': return ext('errmsg') if name == 'message' else raw('caught')
        if o.op == 'err': return fld(o, name)
        k = m.jkind(o, oty)
        if o.op == 'cls':
            c = m.clos[o.args[0]][0]
            if name in c['statics']: return m.closure(m.clos[o.args[0]][1], c['statics'][name])
            return unk('static')
        if k == 'object' or o.op in ('adt', 'with'):
            c = st.store[o.args[0]] if o.op == 'jref' else o
            return m.objget(st, fr, o, c, name, ty)
        if name == 'length':
            if o.op == 'ta': return o.args[3] if o.args[0] == 'u8' else m.unscale(o.args[3], ES[o.args[0]])
            if k in ('array', 'string', 'u8'): return ln(m.deref(st, o))
            if k == 'u32': return m.unscale(ln(m.deref(st, o)), 4)
            if k == 'function': return unk('fnlength')
            return ln(o)
        if name == 'size' and k in ('map', 'set'): return ext('mapsize', m.deref(st, o))
        if name == 'byteLength':
            if o.op == 'ta': return o.args[3]
            if o.op == 'dv': return o.args[2]
            return ln(m.deref(st, o))
        if name == 'byteOffset':
            if o.op == 'ta' and not isinstance(o.args[1], T): return o.args[2]
            if o.op == 'ta': return add(ext('byteOffset', o.args[1]), o.args[2])
            return ext('byteOffset', o)
        if name == 'buffer':
            if o.op == 'ta': return raw('buf', o.args[1]) if not isinstance(o.args[1], T) else raw('abuf', o.args[1])
            return raw('abuf', o)
        if name == 'exports' : return raw('inst', o)
        if o.op == 'inst': return raw('extfn', o.args[0], name)
        if k in ('any',) and m.dyn(o): return m.symprop(o, name)
        if o.op in ('unk',): return unk('prop', o)
        return raw('bound', o, name)
    def symprop(m, o, name):
        return fld(o, name)
    def unscale(m, n, k):
        if k == 1: return n
        if n.op == 'poly' and all(c % k == 0 for _, c in n.args): return TM.mkpoly({a: c // k for a, c in n.args})
        if n.op == 'int' and n.args[0] % k == 0: return I(n.args[0] // k)
        return m.div(n, k)
    def objget(m, st, fr, o, c, name, ty):
        b = c
        while b.op == 'with':
            for k, v in b.args[1]:
                if k == name: return v
            b = b.args[0]
        if b.op == 'ite' :
            return m.branch(st, b.args[0], lambda q: m.objget(q, fr, o, b.args[1], name, ty), lambda q: m.objget(q, fr, o, b.args[2], name, ty))
        if b.op == 'adt':
            d = dict(b.args[1])
            if name in d: return m.known(st, d[name])
            if b.args[0].startswith('cls:'):
                cls = m.clos[int(b.args[0][4:])][0]
                if name in cls['methods']: return raw('bound', o, name)
                if name in cls['getters']: return m.callfn(st, fr, cls['getters'][name], [], o, m.clos[int(b.args[0][4:])][1])
            if name in ('hasOwnProperty', 'toString'): return raw('bound', o, name)
            return UNDEF
        if name == 'exports': return raw('inst', b)
        return fld(c, name)
    def setprop(m, st, fr, o, name, v):
        if o.op == 'ite':
            return m.branch(st, o.args[0], lambda q: m.setprop(q, fr, o.args[1], name, v) or UNIT, lambda q: m.setprop(q, fr, o.args[2], name, v) or UNIT)
        if o.op == 'jref' and m.kind[o.args[0]] == 'object':
            st.store[o.args[0]] = setfld(st.store[o.args[0]], name, v); return
        if o.op == 'jref' and name == 'length': 
            c = st.store[o.args[0]]; st.store[o.args[0]] = sl(c, I(0), v) ; return
        m.event(st, 'mutate', (m.reify(st, o), S(name), m.reify(st, v)))
    def deref(m, st, v):
        if v.op == 'jref': return st.store[v.args[0]]
        if v.op == 'ta': return m.tabytes(st, v)
        if v.op == 'buf': return m.content(st, v.args[0])
        return st.store.get(('mut', v), v) if m.dirty else v
    def hasprop(m, st, o, k):
        c = m.deref(st, o)
        if c.op == 'adt' and k.op == 'str': return B(any(n == k.args[0] for n, _ in c.args[1]))
        if m.dyn(c): return ext('hasprop', c, k)
        return unk('in')
    def okeys(m, st, o):
        c = m.deref(st, o)
        if c.op == 'adt': return raw('arr', *[S(n) for n, _ in c.args[1]])
        e = ext('objentries', m.reify(st, c)); bv = sym('i', True)
        return G(bv, ln(e), seq(one(fld(idx(e, bv), '0'))))
    def oentries(m, st, o, which=None):
        c = m.deref(st, o)
        if c.op == 'adt': return raw('arr', *[(S(n) if which == '0' else v if which == '1' else tup(S(n), v)) for n, v in c.args[1]])
        e = ext('objentries', m.reify(st, c))
        if which is None: return e
        bv = sym('i', True)
        return G(bv, ln(e), seq(one(fld(idx(e, bv), which))))
    def e_idx(m, n, st, fr):
        o = m.ev(n['o'], st, fr); i = m.ev(n['i'], st, fr)
        if st.dead: return BOT
        return m.getidx(st, fr, o, i, n['o'].get('ty', ''), n.get('ty', ''))
    def getidx(m, st, fr, o, i, oty, ty, tupled=False):
        if o.op == 'ite' and m.needlift(o):
            return m.branch(st, o.args[0], lambda q: m.getidx(q, fr, o.args[1], i, oty, ty, tupled), lambda q: m.getidx(q, fr, o.args[2], i, oty, ty, tupled))
        if st.dead: return BOT
        k = m.jkind(o, oty)
        if o.op in ('undef', 'null'): m.throwif(st, fr, TRUE); return BOT
        if i.op == 'str': return m.getprop(st, fr, o, i.args[0], oty, ty)
        if k == 'u8':
            c = m.deref(st, o); return m.inbounds(st, i, ln(c), idx(c, i))
        if k in ('u32', 'u16') or o.op == 'words':
            c = m.deref(st, o); w = ES[k] if k in ES else 4
            return m.inbounds(st, i, m.unscale(ln(c), w), num('le', w, sl(c, mul(I(w), i), add(mul(I(w), i), I(w)))))
        if k == 'array' or o.op in ('arr', 'seq', 'tup'):
            c = m.deref(st, o)
            if c.op == 'tup':
                return c.args[cst(i)] if cst(i) is not None and cst(i) < len(c.args) else UNDEF if cst(i) is not None else unk('tuple')
            if tupled or oty.startswith('[') and cst(i) is not None: return fld(c, str(cst(i))) if c.op not in ('arr', 'seq') else idx(c, i)
            if c.op == 'ext' and c.args[0] == 'split': return m.inbounds(st, i, ln(c), idx(c, i))
            return m.inbounds(st, i, ln(c), idx(c, i))
        if k == 'string':
            return m.inbounds(st, i, ln(o), ext('strat', o, i))
        if k in ('object', 'any'):
            c = m.deref(st, o)
            if kinds(oty) == {'any'} and m.jkind(i, '') == 'any' and i.op in ('sym', 'int', 'poly') : return idx(c, i)
            if i.op == 'fld' and i.args[1] == '0' and i.args[0].op == 'idx' and i.args[0].args[0].op == 'ext' and i.args[0].args[0].args[0] == 'objentries' and i.args[0].args[0].args[1] is c: return fld(i.args[0], '1')
            if i.op in ('int', 'sym', 'poly'): return idx(c, i)
            return raw('prop', c, i)
        return unk('index', o, i)
    def inbounds(m, st, i, n, v):
        c = m.settle(and_(ge(i, I(0)), lt(i, n)))
        if c is TRUE: return v
        if c is FALSE: return UNDEF
        ks = {y for x in st.pc for y in conj(x)}
        cs = [x for x in conj(c) if x not in ks and not any(TM._implies_lin(g, x) for g in ks if g.op == 'ge0' and x.op == 'ge0')]
        if not cs: return v
        x = cs[0]
        for g in ks:
            # an equation on the length settles the bound
            if g.op == 'eq0' and len(cs) == 1 and assume(substeq(x, g), []) is TRUE: return v
        return v
    def setidx(m, st, fr, o, i, v, oty):
        if o.op == 'ite':
            return m.branch(st, o.args[0], lambda q: m.setidx(q, fr, o.args[1], i, v, oty) or UNIT, lambda q: m.setidx(q, fr, o.args[2], i, v, oty) or UNIT)
        if o.op == 'ta' and not isinstance(o.args[1], T):
            w = ES[o.args[0]]; off = mul(I(w), i)
            inb = m.settle(and_(ge(i, I(0)), ge0(sub(sub(o.args[3], off), I(w)))))
            c = st.store[o.args[1]]
            if inb is FALSE: return
            d = seq(one(self_u8(v))) if w == 1 else enc('le', w, trunc(TR[w], v))
            new = write(c, add(o.args[2], off), d)
            if inb is not TRUE:
                ks = {y for x in st.pc for y in conj(x)}
                if not all(x in ks for x in conj(inb)): m.nbounds += 1; new = ite(inb, new, c)
            st.store[o.args[1]] = new; return
        if o.op == 'jref':
            kd = m.kind[o.args[0]]; c = st.store[o.args[0]]
            if kd == 'array':
                v = m.store_val(st, v)
                if i is ln(c): st.store[o.args[0]] = m.push(c, v); return
                inb = m.settle(and_(ge(i, I(0)), lt(i, ln(c))))
                if inb is TRUE: st.store[o.args[0]] = upd(c, i, v); return
                st.store[o.args[0]] = unk('setidx', c, i, v); return
            if kd == 'object':
                if i.op == 'str': st.store[o.args[0]] = setfld(c, i.args[0], v); return
                st.store[o.args[0]] = unk('setprop', c); return
        if ('mut', o.args[1] if o.op == 'ta' else o) in st.store and (o.op == 'ta' and o.args[0] == 'u8' or m.jkind(o, oty) == 'u8'):
            # writes outside the array have no effect
            n = o.args[3] if o.op == 'ta' else ln(o); c = ('mut', o.args[1] if o.op == 'ta' else o)
            m.dirty = True; old = st.store[c]; m.written(st, o, i, seq(one(self_u8(v)))); inb = m.settle(and_(ge(i, I(0)), lt(i, n)))
            if inb is not TRUE: st.store[c] = ite(inb, st.store[c], old)
            return
        m.event(st, 'mutate', (m.reify(st, o), i, m.reify(st, v)))
    def push(m, c, v):
        if c.op == 'arr' and len(c.args) < 16: return raw('arr', *c.args, v)
        return seq(c, one(v))

    # ---------------------------------------------------------------- calls
    def args(m, n, st, fr):
        out = []
        for a in n['args']:
            if 'spread' in a:
                v = m.ev(a['spread'], st, fr)
                if st.dead: return out
                s = m.iter(st, fr, v, a['spread'].get('ty', ''))
                if s.op == 'arr': out += list(s.args)
                else: out.append(raw('spread', s))
            else:
                v = m.ev(a, st, fr); out.append(v)
                if v is not None and a.get('ty') in ('bigint', 'string'): m.note(v, a['ty'])
            if st.dead: return out
        return out
    def e_call(m, n, st, fr):
        f = n['f']
        if f['k'] == 'mem':
            o = m.ev(f['o'], st, fr)
            if st.dead: return BOT
            if f['opt']:
                return m.branch(st, m.isnullish(o, f['o'].get('ty', '')), lambda q: UNDEF, lambda q: m.mcall(n, f, q, fr, m.known(q, o)))
            return m.mcall(n, f, st, fr, o)
        if f['k'] == 'super': return UNDEF
        v = m.ev(f, st, fr)
        a = m.args(n, st, fr)
        if st.dead: return BOT
        if n['opt']: return m.branch(st, m.isnullish(v, f.get('ty', '')), lambda q: UNDEF, lambda q: m.callval(q, fr, v, a, n))
        return m.callval(st, fr, v, a, n)
    def mcall(m, n, f, st, fr, o):
        a = m.args(n, st, fr)
        if st.dead: return BOT
        return m.method(st, fr, o, f['name'], a, n, f['o'].get('ty', ''))
    def method(m, st, fr, o, name, a, n, oty):
        if st.dead: return BOT
        if o.op == 'ite':
            o = m.known(st, o)
            if o.op == 'ite' and (m.needlift(o) or True):
                return m.branch(st, o.args[0], lambda q: m.method(q, fr, o.args[1], name, a, n, oty), lambda q: m.method(q, fr, o.args[2], name, a, n, oty))
        if o.op == 'g': return m.builtin(st, fr, (o.args[0] + '.' + name).lstrip('.'), a, n)
        if o.op == 'x': 
            p = m.getprop(st, fr, o, name, '', '')
            return m.callval(st, fr, p, a, n)
        if o.op == 'module': return m.callval(st, fr, m.getprop(st, fr, o, name, '', ''), a, n)
        if o.op in ('undef', 'null'): m.throwif(st, fr, TRUE); return BOT
        if o.op == 'inst': return m.instcall(st, fr, o.args[0], name, a)
        if o.op == 'promise':
            if name in ('then', 'catch', 'finally'): return raw('promise', -6, o, name, *a)
        if o.op in ('clo', 'fnv') and name == 'call': return m.callval(st, fr, o, a[1:], n, a[0] if a else None)
        if o.op == 'cls':
            p = m.getprop(st, fr, o, name, '', '')
            return m.callval(st, fr, p, a, n)
        k = m.jkind(o, oty)
        c = m.deref(st, o)
        if k == 'object':
            b = c
            while b.op == 'with': b = b.args[0]
            if b.op == 'adt' and b.args[0].startswith('cls:') and name not in dict(b.args[1]):
                cls, pf, _ = m.clos[int(b.args[0][4:])]
                fn = cls['methods'].get(name)
                if fn: return m.callfn(st, fr, fn, a, o, pf)
            if name == 'hasOwnProperty': return m.hasprop(st, o, a[0])
            p = m.getprop(st, fr, o, name, oty, '')
            if p.op == 'extfn': return m.instcall(st, fr, p.args[0], name, a)
            if p.op in ('clo', 'fnv', 'g', 'x'): return m.callval(st, fr, p, a, n, o)
            if name == 'toString': return m.jstostring(st, fr, o, oty)
            return unk('method', S(name))
        h = getattr(m, {'string': 'str_', 'array': 'arr_', 'map': 'map_', 'set': 'set_', 'u8': 'ta_', 'u32': 'ta_', 'u16': 'ta_', 'big64': 'ta_', 'dv': 'dv_', 'buf': 'buf_', 'number': 'num_', 'bigint': 'num_', 'boolean': 'num_', 'any': 'any_', 'regex': 'any_', 'function': 'any_'}.get(k, 'any_') + 'call', None)
        return h(st, fr, o, c, name, a, n, oty)
    def jstostring(m, st, fr, v, ty):
        if v.op == 'ite': return m.branch(st, v.args[0], lambda q: m.jstostring(q, fr, v.args[1], ty), lambda q: m.jstostring(q, fr, v.args[2], ty))
        k = m.jkind(v, ty)
        if k == 'any' or kinds(ty) & {'undefined', 'null', 'any'}: m.throwif(st, fr, m.isnullish(v, ty))
        if st.dead: return BOT
        return m.tostring(st, fr, v, ty)
    def any_call(m, st, fr, o, c, name, a, n, oty):
        if o.op == 'regex':
            if name == 'test': return ext('re_test', o, *a)
            return unk('regex')
        if name == 'toString' and not a: return m.jstostring(st, fr, o, oty)
        if m.dyn(o) and o.op != 'unk':
            if oty == 'any' and name in ('getVersion',): return unk('any')
            return unk('anymethod', S(name))
        return unk('method', S(name), o)
    def num_call(m, st, fr, o, c, name, a, n, oty):
        if name in ('toString', 'toLocaleString', 'valueOf'):
            if name == 'valueOf': return o
            if a and cst(a[0]) not in (None, 10): return ext('tostr%s' % cst(a[0]), o)
            return tostr(o) if m.jkind(o, oty) != 'boolean' else ext('jsstr', o)
        return unk('numm', S(name))
    def seqof(m, st, c): return c
    # strings
    def str_call(m, st, fr, s, c, name, a, n, oty):
        k0 = cst(a[0]) if a else None
        if name == 'trim': return s if s.op == 'ext' and s.args[0] == 'trim' else S(s.args[0].strip()) if s.op == 'str' else ext('trim', s)
        if name in ('trimEnd', 'trimRight'): return ext('trim_end', s)
        if name in ('trimStart', 'trimLeft'): return ext('trim_start', s)
        if name == 'split':
            if a and a[0].op == 'regex': return m.alloc(st, 'array', ext('splitre', s, a[0]))
            if s.op == 'str' and len(a) == 1 and a[0].op == 'str' and s.args[0].isascii() and s.args[0]:
                return m.alloc(st, 'array', arr(*[S(x) for x in (s.args[0].split(a[0].args[0]) if a[0].args[0] else s.args[0])]))
            return m.alloc(st, 'array', ext('split', s, *a))
        if name == 'startsWith' and len(a) == 1: return m.startswith(s, a[0])
        if name == 'endsWith' and len(a) == 1: return ext('ends_with', s, a[0])
        if name in ('substring', 'slice', 'substr'):
            lo = a[0] if a else I(0); hi = a[1] if len(a) > 1 and a[1].op != 'undef' else ln(s)
            if name == 'substr' and len(a) > 1: hi = add(lo, a[1])
            if s.op == 'str' and cst(lo) is not None and cst(hi) is not None and cst(lo) >= 0: return S(s.args[0][cst(lo):cst(hi)])
            if not nonneg(lo) or len(a) > 1 and not nonneg(hi): return ext('strslice', s, lo, hi)
            return sl(s, lo, hi)
        if name == 'toString' or name == 'valueOf': return s
        if name == 'charCodeAt' or name == 'codePointAt':
            i = a[0] if a else I(0)
            if s.op == 'str' and cst(i) is not None and cst(i) < len(s.args[0]): return I(ord(s.args[0][cst(i)]))
            return ext('charcode' if name == 'charCodeAt' else 'codepoint', s, i)
        if name in ('charAt', 'at'): return ext('strat', s, a[0])
        if name == 'padStart': return m.padstart(s, a)
        if name == 'repeat': return S(s.args[0] * k0) if s.op == 'str' and k0 is not None and 0 <= k0 < 10000 else ext('repeat', s, a[0])
        if name == 'concat': return cat(s, *a)
        if name in ('includes', 'indexOf', 'lastIndexOf', 'toLowerCase', 'toUpperCase', 'replace', 'replaceAll', 'padEnd', 'match', 'normalize', 'localeCompare', 'search'):
            if name == 'includes' and len(a) == 1: return ext('contains', s, a[0])
            if any(x.op in ('clo', 'fnv') for x in a): return unk('replacefn')
            if name == 'replace' and len(a) == 2 and a[0].op == 'str' and a[0].args[0] and a[1].op == 'str' and '$' not in a[1].args[0]:
                # the first occurrence: at the front where there is one
                return m.known(st, ite(m.startswith(s, a[0]), cat(a[1], sl(s, I(len(a[0].args[0])), ln(s))) if a[1].args[0] else sl(s, I(len(a[0].args[0])), ln(s)), ext('str_replace', s, *a)))
            return ext('str_' + name, s, *a)
        if name == 'codePoints' or name == 'matchAll': return unk('strm')
        return unk('strm', S(name))
    def padstart(m, s, a):
        # "0".repeat(n - len) + s  is the same string
        if len(a) > 1: return cat(ext('repeat', a[1], sub(a[0], ln(s))), s)
        return ext('str_padStart', s, *a)
    def startswith(m, s, p):
        if s.op == 'str' and p.op == 'str': return B(s.args[0].startswith(p.args[0]))
        return ext('starts_with', s, p)
    # arrays
    def loopover(m, st, fr, s, f, brk=False):
        """f(state, element, index) for every element; f returns a condition that stops the loop (or None)"""
        if s.op == 'arr' and len(s.args) <= 64 and not brk:
            for i, e in enumerate(s.args):
                if st.dead: return
                f(st, e, I(i))
            return
        v = m.view(s) if s.op != 'arr' else None
        def go(q, b):
            e = subst(v[3], {v[0]: b}) if v is not None and v[2] is TRUE else idx(s, b)
            c = f(q, e, b)
            if brk and c is not None and not q.dead:
                z = q.fork(c)
                if not z.dead: fr.loops[-1].breaks.append((z.pc, z.store, None))
                q.know(not_(c))
        n = v[1] if v is not None and v[2] is TRUE else ln(s)
        m.loop(st, fr, n, go, '%cb')
    def cb(m, st, fr, f, args):
        """a callback; functions take only the arguments they declare"""
        return m.callval(st, fr, f, args)
    def arr_call(m, st, fr, o, c, name, a, n, oty):
        R = lambda v: m.alloc(st, 'array', v)
        mut = o.op == 'jref'
        if any(x.op == 'spread' for x in a) and name not in ('push', 'concat'): return unk('spread')
        if name in ('push', 'unshift') and mut:
            for x in a if name == 'push' else reversed(a):
                v = m.store_val(st, x) if x.op != 'spread' else None
                if name == 'push': c = seq(c, x.args[0]) if v is None else m.push(c, v)
                else: c = raw('arr', v, *c.args) if c.op == 'arr' and v is not None else seq(one(v), c) if v is not None else unk('unshift')
            st.store[o.args[0]] = c
            return ln(c)
        if name == 'pop' and mut:
            r = idx(c, sub(ln(c), I(1))); st.store[o.args[0]] = sl(c, I(0), sub(ln(c), I(1))); return r
        if name == 'shift' and mut:
            r = idx(c, I(0)); st.store[o.args[0]] = sl(c, I(1), ln(c)); return r
        if name in ('forEach', 'map', 'filter', 'flatMap'):
            f = a[0]
            if name == 'forEach':
                m.loopover(st, fr, c, lambda q, e, i: m.cb(q, fr, f, [e, i, o]) and None); return UNDEF
            if f.op == 'g' and name == 'map' and f.args[0] in ('Number', 'BigInt', 'String', 'parseInt'): pass
            out = m.alloc(st, 'array', EMPTY if c.op != 'arr' else raw('arr'))
            def step(q, e, i):
                r = m.cb(q, fr, f, [e, i, o])
                if q.dead: return
                cell = out.args[0]
                if name == 'map': q.store[cell] = m.push(q.store[cell], m.store_val(q, r))
                elif name == 'filter':
                    g = m.truthy(r, 'boolean' if TM.isbool(r) else 'any')
                    q.store[cell] = seq(q.store[cell], TM.site(g, seq(one(e)), EMPTY)) if g is not TRUE else m.push(q.store[cell], e)
                else: q.store[cell] = seq(q.store[cell], *m.parts(q, fr, r, 'any'))
            m.loopover(st, fr, c, step)
            return out
        if name in ('some', 'every'):
            f = a[0]; cell = ('t', m.newid()); st.store[cell] = B(name == 'every')
            def step(q, e, i):
                r = m.truthy(m.cb(q, fr, f, [e, i, o]), 'boolean')
                if q.dead: return
                hit = not_(r) if name == 'every' else r
                q.store[cell] = ite(hit, B(name != 'every'), q.store[cell])
            m.loopover(st, fr, c, step)
            return st.store.pop(cell, unk('some'))
        if name == 'reduce' and len(a) == 2:
            cell = ('t', m.newid())
            if a[1].op == 'jref' and m.deref(st, a[1]).op in ('arr', 'seq') and not any(x.op == 'spread' for x in a):
                # an array accumulator: carried by its contents
                v0 = m.deref(st, a[1]); st.store[cell] = EMPTY if v0.op == 'arr' and not v0.args else v0
                def step(q, e, i):
                    acc = m.alloc(q, 'array', q.store[cell])
                    r = m.cb(q, fr, a[0], [acc, e, i, o])
                    if not q.dead: q.store[cell] = m.deref(q, r)
                m.loopover(st, fr, c, step)
                return R(st.store.pop(cell, unk('reduce')))
            st.store[cell] = a[1]
            def step(q, e, i):
                r = m.cb(q, fr, a[0], [q.store[cell], e, i, o])
                if not q.dead: q.store[cell] = r
            m.loopover(st, fr, c, step)
            return st.store.pop(cell, unk('reduce'))
        if name == 'slice':
            return R(m.slc(st, c, a))
        if name == 'concat':
            return R(seq(c, *[y for i, x in enumerate(a) for y in m.parts(st, fr, x, (n['args'][i].get('ty') or 'any') if i < len(n.get('args', ())) else 'any')]))
        if name == 'join': return ext('join', c, *a)
        if name == 'flat' and len(a) < 2:
            d = 1 if not a else (m.shape or 0) + 1 if a[0].op == 'ext' and a[0].args[0] == 'Infinity' else cst(a[0])
            if m.shape is None or d is None: return unk('flat')
            return R(m.flatten(st, fr, c, min(d, m.shape + 1)))
        if name in ('entries',):
            if c.op == 'arr': return R(raw('arr', *[tup(I(i), e) for i, e in enumerate(c.args)]))
            bv = sym('i', True); return R(G(bv, ln(c), seq(one(tup(bv, idx(c, bv))))))
        if name == 'keys':
            bv = sym('i', True); return R(G(bv, ln(c), seq(one(bv))))
        if name == 'values': return o
        if name == 'fill' and len(a) == 1 and mut: st.store[o.args[0]] = rep(a[0], ln(c)); return o
        if name == 'reverse' and mut:
            if c.op == 'arr': st.store[o.args[0]] = raw('arr', *reversed(c.args)); return o
            bv = sym('i', True); st.store[o.args[0]] = G(bv, ln(c), seq(one(idx(c, sub(sub(ln(c), I(1)), bv))))); return o
        if name in ('includes', 'indexOf') and len(a) == 1:
            if c.op == 'arr' and name == 'includes': return or_(*[m.streq(e, a[0], '', '') for e in c.args])
            return ext('arr_' + name, c, m.reify(st, a[0]))
        if name == 'at':
            i = cst(a[0])
            return idx(c, a[0]) if i is None or i >= 0 else idx(c, add(ln(c), a[0]))
        if name == 'find' or name == 'findIndex':
            cell = ('t', m.newid()); st.store[cell] = NONE
            def step(q, e, i):
                r = m.truthy(m.cb(q, fr, a[0], [e, i, o]), 'boolean')
                if q.dead: return
                cur = q.store[cell]
                q.store[cell] = ite(and_(not_(isv(cur, 'Some')), r), Some(e if name == 'find' else i), cur)
            m.loopover(st, fr, c, step)
            v = st.store.pop(cell, unk('find'))
            return ite(isv(v, 'Some'), pl(v, 'Some', 0), UNDEF if name == 'find' else I(-1))
        if name in ('sort', 'toSorted'):
            r = ext('sorted', c, *[m.reify(st, x) for x in a])
            if name == 'toSorted': return R(r)
            if mut: st.store[o.args[0]] = r
            return o
        if mut and name in ('splice', 'shift', 'unshift', 'copyWithin', 'fill'): st.store[o.args[0]] = unk('arrm', S(name))
        return unk('arrm', S(name))
    def parts(m, st, fr, x, ty):
        """what concat and flatMap take from x"""
        if x.op == 'ite':
            p, q = m.parts(st, fr, x.args[1], ty), m.parts(st, fr, x.args[2], ty)
            return [TM.site(x.args[0], seq(*p), seq(*q))]
        if x.op == 'spread': return [x.args[0]]
        c = m.isarray(st, x, ty)
        if c is FALSE: return [one(m.store_val(st, x))]
        l = seq(m.deref(st, x)) if m.dyn(m.deref(st, x)) else seq(m.iter(st, fr, x, 'any[]'))
        return [l] if c is TRUE else [TM.site(c, l, seq(one(m.store_val(st, x))))]
    def flatten(m, st, fr, c, d):
        """Array.prototype.flat, on inputs nested at most m.shape deep"""
        cell = ('t', m.newid()); st.store[cell] = EMPTY
        def step(q, e, i):
            def deep(r): r.store[cell] = seq(r.store[cell], m.flatten(r, fr, m.deref(r, e), d - 1) if d > 1 else m.deref(r, e))
            def flat(r): r.store[cell] = seq(r.store[cell], one(m.store_val(r, e)))
            m.branch(q, m.isarray(q, e, 'any'), deep, flat)
        m.loopover(st, fr, c, step)
        return st.store.pop(cell, unk('flat'))
    def newid(m): m.nh += 1; return m.nh
    def slc(m, st, c, a):
        lo = a[0] if a and a[0].op != 'undef' else I(0); hi = a[1] if len(a) > 1 and a[1].op != 'undef' else None
        n = ln(c)
        def clamp(x):
            k = cst(x)
            if x is n: return n
            if k is not None and k < 0:
                x = add(n, x)
                return x if nonneg(x) else ite(ge0(x), x, I(0))
            if not nonneg(x): return ite(ge0(x), x, ite(ge0(add(n, x)), add(n, x), I(0))) if all(TM._isnum(y) for y in m.alts(x)) else None
            return x
        lo = clamp(lo); hi = clamp(hi) if hi is not None else n
        if lo is None or hi is None: return unk('slice')
        return sl(c, lo, hi)
    # maps and sets
    def map_call(m, st, fr, o, c, name, a, n, oty):
        if name == 'get':
            g = mget(c, m.key(st, a[0])); v = isv(g, 'Some')
            return ite(v, pl(g, 'Some', 0), UNDEF)
        if name == 'has': return isv(mget(c, m.key(st, a[0])), 'Some')
        if name == 'set':
            if o.op != 'jref': m.event(st, 'mutate', (c,) + tuple(m.reify(st, x) for x in a)); return o
            st.store[o.args[0]] = minsert(c, m.key(st, a[0]), m.store_val(st, a[1])); return o
        if name == 'entries': return m.alloc(st, 'array', ext('entries', c))
        if name == 'keys': return m.alloc(st, 'array', m.mkeys(c, '0'))
        if name == 'values': return m.alloc(st, 'array', m.mkeys(c, '1'))
        if name == 'forEach':
            e = ext('entries', c)
            m.loopover(st, fr, e, lambda q, x, i: m.cb(q, fr, a[0], [fld(x, '1'), fld(x, '0'), o]) and None); return UNDEF
        if name == 'clear' and o.op == 'jref': st.store[o.args[0]] = mapt(EMPTY); return UNDEF
        if o.op == 'jref' and name in ('delete',): st.store[o.args[0]] = ext('map_delete', c, *a); return UNDEF
        return unk('mapm', S(name))
    def key(m, st, k): return m.reify(st, k)
    def mkeys(m, c, w):
        e = ext('entries', c); bv = sym('i', True)
        return G(bv, ln(e), seq(one(fld(idx(e, bv), w))))
    def set_call(m, st, fr, o, c, name, a, n, oty):
        if c.op == 'ext' and c.args[0] == 'setof': return m.arr_call(st, fr, o, c.args[1], 'includes', a, n, oty) if name == 'has' else unk('setm', S(name))
        if name == 'has': return isv(mget(c, m.key(st, a[0])), 'Some')
        if name == 'add' and o.op == 'jref': st.store[o.args[0]] = minsert(c, m.key(st, a[0]), TRUE); return o
        return unk('setm', S(name))
    # typed arrays
    def ta_call(m, st, fr, o, c, name, a, n, oty):
        k = m.jkind(o, oty); w = ES[k]
        if name == 'slice':
            r = m.slc(st, c, [mul(I(w), x) if x.op != 'undef' else x for x in a])
            return m.newta(st, k, r)
        if name == 'subarray':
            r = m.slc(st, c, [mul(I(w), x) if x.op != 'undef' else x for x in a])
            if o.op == 'ta' and r.op != 'unk':
                lo = a[0] if a and a[0].op != 'undef' else I(0)
                if nonneg(lo): return raw('ta', k, o.args[1], add(o.args[2], mul(I(w), lo)), ln(r))
            return m.newta(st, k, r)
        if name == 'set':
            src = a[0]; off = mul(I(w), a[1]) if len(a) > 1 else I(0)
            b = m.bytesof(st, fr, src, w)
            m.throwif(st, fr, not_(and_(ge0(sub(sub(o.args[3] if o.op == 'ta' else ln(c), off), ln(b))), ge0(off))))
            if st.dead: return BOT
            m.dirty = True
            if not m.written(st, o, off, b): m.event(st, 'mutate', (c, b, off))
            return UNDEF
        if name == 'fill':
            lo = mul(I(w), a[1]) if len(a) > 1 else I(0); hi = mul(I(w), a[2]) if len(a) > 2 else o.args[3] if o.op == 'ta' else ln(c)
            if w != 1 and cst(a[0]) != 0: return unk('fill')
            m.dirty = True
            return o if m.written(st, o, lo, rep(a[0], sub(hi, lo))) else unk('fill')
        if name in ('map', 'forEach', 'reduce', 'every', 'some', 'find', 'findIndex', 'entries', 'values', 'keys', 'join', 'filter', 'includes', 'indexOf', 'at'):
            if k != 'u8': return unk('tam')
            r = m.arr_call(st, fr, m.alloc(st, 'array', c), c, name, a, n, oty)
            if name in ('map', 'filter'): return m.newta(st, 'u8', st.store[r.args[0]])
            return r
        if name == 'toString':
            if a: return ext('bytes_to_' + (a[0].args[0] if a[0].op == 'str' else '?'), c)
            return ext('join', c, S(','))
        if name == 'reverse':
            bv = sym('i', True); r = c.op == 'enc' and enc('be' if c.args[0] == 'le' else 'le', *c.args[1:]) or G(bv, ln(c), seq(one(idx(c, sub(sub(ln(c), I(1)), bv)))))
            m.dirty = True
            return o if m.written(st, o, I(0), r) else unk('reverse')
        return unk('tam', S(name))
    def bytesof(m, st, fr, v, w=1):
        """the bytes that copying v into an array of elements of width w writes"""
        if v.op == 'ta' and ES[v.args[0]] == w: return m.tabytes(st, v)
        if v.op == 'ta': return unk('width')
        c = m.deref(st, v)
        if w == 1:
            if v.op == 'jref' and m.kind[v.args[0]] == 'array':
                if c.op == 'arr': return raw('arr', *[self_u8(x) for x in c.args]) if any(x.op != 'int' for x in c.args) else raw('bytes', bytes(x.args[0] % 256 for x in c.args))
                return c
            return c
        if c.op == 'arr': return seq(*[enc('le', w, trunc(TR[w], x)) for x in c.args])
        return unk('words')
    def rel(m, B, off):
        """offset within the view's own bytes"""
        if isinstance(B, T): return sub(off, ext('byteOffset', B))
        return off
    def dv_call(m, st, fr, o, c, name, a, n, oty):
        r = re.fullmatch(r'(get|set)(Big)?(Uint|Int)(8|16|32|64)', name)
        if not r or o.op != 'dv': return unk('dv')
        w = int(r.group(4)) // 8; off = a[0]
        ls = a[1 if r.group(1) == 'get' else 2] if len(a) > (1 if r.group(1) == 'get' else 2) else UNDEF
        le_ = m.truthy(ls, 'any') if w > 1 else FALSE
        if le_ not in (TRUE, FALSE): return unk('endian')
        en = 'le' if le_ is TRUE else 'be'
        B = o.args[0]
        m.throwif(st, fr, not_(and_(ge0(sub(sub(o.args[2], off), I(w))), ge0(off))))
        if st.dead: return BOT
        pos = add(o.args[1], off)
        cur = m.content(st, B)
        if r.group(1) == 'get':
            v = num(en, w, sl(cur, pos, add(pos, I(w))))
            return v if r.group(3) == 'Uint' else trunc('i%d' % (8 * w), v)
        if isinstance(B, T): m.event(st, 'mutate', (cur, off, m.reify(st, a[1]))); return UNDEF
        v = a[1]
        if w == 1: d = seq(one(self_u8(v)))
        else:
            x = v if nonneg(v) and nonneg(sub(I((1 << 8 * w) - 1), v)) else trunc(TR[w], v)
            d = enc(en, w, x)
        st.store[B] = write(cur, pos, d)
        return UNDEF
    def buf_call(m, st, fr, o, c, name, a, n, oty):
        if name == 'slice': return m.alloc(st, 'bytes', m.slc(st, c, a))
        return unk('buf')
    # ---------------------------------------------------------------- construction
    def e_new(m, n, st, fr):
        f = n['f']; a = m.args(n, st, fr)
        if st.dead: return BOT
        tys = [x.get('ty', '') if 'spread' not in x else '' for x in n['args']]
        if f['k'] == 'glob': return m.construct(st, fr, f['name'], a, tys)
        v = m.ev(f, st, fr)
        if v.op == 'cls': return m.instantiate(st, fr, v, a)
        if v.op == 'g': return m.construct(st, fr, v.args[0], a, tys)
        return unk('new')
    def instantiate(m, st, fr, v, a):
        c, pf, _ = m.clos[v.args[0]]
        if c['ext'] and c['ctor'] is None: pass
        o = m.alloc(st, 'object', adt('cls:%d' % v.args[0], {}))
        f2 = Frame({'async': False, 'd': '?', 'name': c['name'], 'arrow': False}, pf); f2.this = o
        for x in c['fields']:
            if not x['static']: m.setprop(st, fr, o, x['name'], m.ev(x['init'], st, f2) if x['init'] else UNDEF)
        if c['ctor'] is not None:
            m.propagate(st, fr, m.invoke0(st, c['ctor'], a, o, pf))
        return o
    def construct(m, st, fr, name, a, tys):
        if any(x.op == 'spread' for x in a): return unk('spread')
        if name in ('Map', 'Set'):
            if not a or a[0].op in ('undef', 'null'): return m.alloc(st, 'map' if name == 'Map' else 'set', mapt(EMPTY))
            s = m.iter(st, fr, a[0], tys[0] if tys else '')
            if name == 'Set': return m.alloc(st, 'set', ext('setof', s))
            if s.op == 'ext' and s.args[0] == 'entries': return m.alloc(st, 'map', s.args[1])
            o = m.alloc(st, 'map', mapt(EMPTY))
            def step(q, e, i): q.store[o.args[0]] = minsert(q.store[o.args[0]], m.tupel(e, 0), m.tupel(e, 1))
            m.loopover(st, fr, s, step)
            return o
        if name in TA:
            k = TA[name]; w = ES[k]
            if not a: return m.newta(st, k, rep(I(0), I(0)))
            x = a[0]
            if x.op == 'ite' and m.needlift(x): return m.branch(st, x.args[0], lambda q: m.construct(q, fr, name, [x.args[1]] + a[1:], tys), lambda q: m.construct(q, fr, name, [x.args[2]] + a[1:], tys))
            kx = m.jkind(x, tys[0] if tys else '')
            if x.op in ('buf', 'abuf'):
                B = x.args[0] if x.op == 'buf' else x.args[0]
                off = a[1] if len(a) > 1 and a[1].op != 'undef' else I(0)
                r = m.rel(B, off) if x.op == 'abuf' else off
                n = mul(I(w), a[2]) if len(a) > 2 and a[2].op != 'undef' else sub(ln(m.content(st, B)), r)
                if len(a) > 1:
                    room = sub(sub(ln(m.content(st, B)), r), n) if len(a) > 2 and a[2].op != 'undef' else n
                    if x.op == 'buf' and len(a) > 1: m.throwif(st, fr, not_(and_(ge0(room), ge0(r))))
                    if st.dead: return BOT
                return raw('ta', k, B, r, n)
            if kx == 'buf':
                if len(a) > 1: return m.construct(st, fr, name, [m.alloc(st, 'bytes', m.deref(st, x))] + a[1:], tys)
                return m.newta(st, k, m.deref(st, x))
            if kx == 'number' or x.op in ('int', 'poly', 'len'): return m.newta(st, k, rep(I(0), mul(I(w), x)))
            if kx in ES and ES[kx] == w or x.op == 'ta' and ES[x.args[0]] == w: return m.newta(st, k, m.deref(st, x))
            if kx == 'array':
                b = m.bytesof(st, fr, x, w)
                return m.newta(st, k, b)
            if kx == 'any' and m.dyn(x): return m.newta(st, k, ext('asbytes', x))
            return m.newta(st, k, unk('ta', x))
        if name == 'ArrayBuffer': return m.alloc(st, 'bytes', rep(I(0), a[0]))
        if name == 'DataView':
            x = a[0]
            off = a[1] if len(a) > 1 and a[1].op != 'undef' else I(0)
            if x.op == 'ite': return m.branch(st, x.args[0], lambda q: m.construct(q, fr, name, [x.args[1]] + a[1:], tys), lambda q: m.construct(q, fr, name, [x.args[2]] + a[1:], tys))
            if x.op == 'buf': B = x.args[0]; r = off
            elif x.op == 'abuf': B = x.args[0]; r = m.rel(B, off)
            else: B = m.alloc(st, 'bytes', m.deref(st, x)).args[0]; r = off
            n = a[2] if len(a) > 2 and a[2].op != 'undef' else sub(ln(m.content(st, B)), r)
            return raw('dv', B, r, n)
        if name in ('Error', 'TypeError', 'RangeError', 'SyntaxError', 'Exception'):
            return adt('err', {'message': m.reify(st, a[0]) if a else S('')})
        if name == 'TextEncoder': return raw('g', 'TextEncoder()')
        if name == 'TextDecoder':
            opts = m.reify(st, a[1]) if len(a) > 1 else UNDEF
            lab = a[0] if a else S('utf-8')
            fatal = fld(opts, 'fatal') if opts.op == 'adt' and 'fatal' in dict(opts.args[1]) else FALSE
            if lab.op == 'str' and lab.args[0].lower() in ('utf-8', 'utf8'): return raw('g', 'TextDecoder()' if fatal is FALSE else 'TextDecoder(fatal)')
            if lab.op == 'str' and opts.op == 'undef':
                l = lab.args[0].lower()
                return raw('g', 'TextDecoder(=%s)' % {'latin1': 'windows-1252', 'iso-8859-1': 'windows-1252', 'ascii': 'windows-1252', 'us-ascii': 'windows-1252'}.get(l, l))
            return raw('g', 'TextDecoder(?)')
        if name == 'Array':
            if len(a) == 1: return m.alloc(st, 'array', rep(UNDEF, a[0]))
            return m.alloc(st, 'array', raw('arr', *a))
        if name == 'Promise': return unk('promise')
        return unk('new', S(name))
    def tupel(m, e, i):
        if e.op in ('arr', 'tup') and i < len(e.args): return e.args[i]
        if e.op == 'seq': return idx(e, I(i))
        return fld(e, str(i))
    def iter(m, st, fr, v, ty):
        """the sequence an iteration over v visits"""
        if v.op == 'ite':
            return ite(v.args[0], m.iter(st, fr, v.args[1], ty), m.iter(st, fr, v.args[2], ty))
        k = m.jkind(v, ty); c = m.deref(st, v)
        if k == 'array': 
            if c.op == 'tup': return raw('arr', *c.args)
            return c
        if k == 'map' or c.op == 'map': return ext('entries', c)
        if k == 'set': return ext('uniq', c.args[1]) if c.op == 'ext' and c.args[0] == 'setof' else m.mkeys(c, '0')
        if k == 'u8': return c
        if k in ES:
            w = ES[k]; bv = sym('i', True)
            return seq(G(bv, m.unscale(ln(c), w), one(num('le', w, sl(c, mul(I(w), bv), add(mul(I(w), bv), I(w)))))))
        if k == 'string': return arr(*[S(x) for x in c.args[0]]) if c.op == 'str' and c.args[0].isascii() and c.args[0] else ext('chars', c)
        if re.match(r'(Map|Array|Set)?Iterator|IterableIterator|Iterable', ty or ''): return c
        if k == 'any' and m.dyn(c): return c
        return unk('iter', c)

    # ---------------------------------------------------------------- the environment
    def external(m, st, fr, mod, name, a, n):
        if 'zkenc_js' in mod:
            ra = [m.reify(st, x) for x in a]
            if name in ('init', 'default', 'initSync', '__wbg_init'):
                m.event(st, 'wasm.init', (S(name),))
                return raw('promise', -4, ext('call:' + name, *ra))
            m.event(st, 'wasm', (S(name), *ra, st.store[('init',)]), n.get('sp'))
            v = m.propagate(st, fr, ext('call:' + name, *ra))
            if not st.dead: m.track(st, *([fld(v, 'ciphertext'), fld(v, 'key')] if name == 'wasm_encap' else [v]))
            return v
        if mod in ('crypto', 'node:crypto'):
            if name == 'randomBytes': return m.newta(st, 'u8', m.rnd(st, a[0]))
            if name == 'randomFillSync' or name == 'getRandomValues': return m.builtin(st, fr, 'crypto.getRandomValues', a, n)
            if name == 'webcrypto': return raw('g', 'crypto')
        return unk('extern', S(mod), S(name))
    def rnd(m, st, n, src='webcrypto'):
        m.rndc = getattr(m, 'rndc', 0) + 1
        return raw('rnd', m.rndc, n, raw('rngsrc', 'module' if m.inmod else src), S('bytes'))
    def cipher(m, key, iv, tag):
        alg, k, uses = key.args
        if alg != 'AES-GCM': return unk('alg')
        nm = 'AesGcm<Aes256, U12>' if cst(ln(iv)) == 12 else 'AesGcm<Aes256, U?>'
        if tag != 128: nm = 'AesGcm<Aes256, U12, tag %s>' % tag
        full = ext('cipher', S(nm), k)
        c = eq(ln(k), I(32))
        return full if c is TRUE else ite(c, full, ext('cipher', S(nm.replace('Aes256', 'Aes by key length')), k))
    def algof(m, st, v):
        v = m.reify(st, v)
        if v.op == 'str': return v.args[0].upper(), {}
        if v.op == 'adt':
            d = dict(v.args[1]); nm = d.get('name')
            return (nm.args[0].upper() if nm is not None and nm.op == 'str' else '?'), d
        return '?', {}
    def subtle(m, st, fr, name, a, n):
        P = lambda ok, v: raw('promise', -3, ok, v)
        if name == 'importKey':
            if a[0].op != 'str' or a[0].args[0] != 'raw': return unk('importKey')
            k = m.reify(st, a[1]); alg, _ = m.algof(st, a[2])
            u = m.reify(st, a[4]) if len(a) > 4 else UNDEF
            us = tuple(sorted(x.args[0] for x in u.args if x.op == 'str')) if u.op == 'arr' else ('?',)
            ok = or_(*[eq(ln(k), I(x)) for x in (16, 24, 32)])
            return P(ok, raw('ckey', alg, k, us))
        if name in ('encrypt', 'decrypt'):
            alg, d = m.algof(st, a[0]); key = a[1]
            if key.op == 'ite': key = m.known(st, key)
            data = m.reify(st, a[2])
            if key.op == 'promise': return P(FALSE, UNDEF)
            if key.op != 'ckey' or 'iv' not in d: return unk('subtle')
            if alg != 'AES-GCM' or key.args[0] != 'AES-GCM': return P(ext('alg_ok', S(alg), S(key.args[0])), ext('subtle', S(name), S(alg), S(key.args[0]), key.args[1], data))
            if name not in key.args[2] and '?' not in key.args[2]: return P(FALSE, UNDEF)
            iv = d['iv']; aad = d.get('additionalData', EMPTY)
            if aad.op == 'undef' or aad.op == 'rep' and cst(ln(aad)) == 0: aad = EMPTY
            tl = d.get('tagLength', I(128)); tag = cst(tl) if tl.op == 'int' else 128 if tl.op == 'undef' else None
            ci = m.cipher(key, iv, tag)
            ks = {y for x in st.pc for y in conj(x)}
            ci = assume(ci, list(ks))
            if name == 'encrypt': return P(ext('encrypt_ok', ci, iv, data, aad), ext('encrypt', ci, iv, data, aad))
            return P(ext('decrypt_ok', ci, iv, data, aad), ext('decrypt', ci, iv, data, aad))
        if name == 'digest': return P(TRUE, ext('digest', a[0], m.reify(st, a[1])))
        return unk('subtle', S(name))
    def builtin(m, st, fr, p, a, n):
        A = lambda: [m.reify(st, x) for x in a]
        if p.startswith('console.'):
            m.event(st, 'print', tuple(A())); return UNDEF
        if p.startswith('crypto.subtle.'): return m.subtle(st, fr, p.split('.')[-1], a, n)
        if p == 'crypto.getRandomValues':
            x = a[0]
            if x.op != 'ta' or isinstance(x.args[1], T): return unk('random')
            st.store[x.args[1]] = write(st.store[x.args[1]], x.args[2], m.rnd(st, x.args[3])); return x
        if p in ('Math.random', 'Date.now', 'performance.now'): return ext('ambient', S(p))
        tys = [x.get('ty', '') if 'spread' not in x else '' for x in n.get('args', [])]
        ty0 = tys[0] if tys else 'any'
        if p == 'parseInt' or p == 'Number.parseInt':
            r = a[1] if len(a) > 1 and a[1].op != 'undef' else ext('autoradix')
            s = m.tostring(st, fr, a[0], ty0)
            if s.op == 'str' and cst(r) == 10 and re.match(r'\s*-?\d+', s.args[0]): return I(int(re.match(r'\s*-?\d+', s.args[0]).group()))
            return ext('parseInt', s, r)
        if p == 'BigInt': return m.bigint(st, fr, a[0], ty0)
        if p == 'BigInt.asUintN':
            k = cst(a[0])
            return m.rem(a[1], 1 << k) if k is not None else unk('asUintN')
        if p == 'Number': return m.tonumber(st, a[0], ty0) if a else I(0)
        if p == 'String': return m.tostring(st, fr, a[0], ty0)
        if p == 'Boolean': return m.truthy(a[0], ty0)
        if p in ('isNaN', 'Number.isNaN'): return m.isnan(a[0])
        if p in ('Number.isInteger', 'Number.isSafeInteger', 'Number.isFinite', 'isFinite'):
            k = m.jkind(a[0], ty0)
            if TM.maybe_nan(a[0]): return not_(m.isnan(a[0])) if p != 'Number.isSafeInteger' else ext('safeint', a[0])
            if k == 'number' and a[0].op in ('int', 'len', 'poly', 'num'): return TRUE
            return ext(p, m.reify(st, a[0]))
        if p == 'Array.isArray': return m.isarray(st, a[0], ty0)
        if p == 'Array.from':
            x = a[0]
            if x.op == 'jref' and m.kind[x.args[0]] == 'object':
                L = fld(st.store[x.args[0]], 'length'); s = rep(UNDEF, L)
            else: s = m.iter(st, fr, x, ty0)
            o = m.alloc(st, 'array', s)
            return m.arr_call(st, fr, o, s, 'map', [a[1]], n, '') if len(a) > 1 else o
        if p == 'Array.of': return m.alloc(st, 'array', raw('arr', *A()))
        if p in ('Uint8Array.from', 'Buffer.from'):
            x = a[0]
            if p == 'Buffer.from' and m.jkind(x, ty0) == 'string':
                e = a[1].args[0] if len(a) > 1 and a[1].op == 'str' else 'utf8'
                return m.newta(st, 'u8', ext('utf8enc', x) if e in ('utf8', 'utf-8') else ext('decode_' + e, x))
            if x.op in ('buf', 'abuf'): return m.construct(st, fr, 'Uint8Array', a, tys)
            s = m.iter(st, fr, x, ty0) if not (x.op == 'jref' and m.kind[x.args[0]] == 'object') else rep(UNDEF, fld(st.store[x.args[0]], 'length'))
            if len(a) > 1: 
                o = m.arr_call(st, fr, m.alloc(st, 'array', s), s, 'map', [a[1]], n, ''); s = st.store[o.args[0]]
            return m.newta(st, 'u8', m.bytesof(st, fr, m.alloc(st, 'array', s)))
        if p == 'Buffer.concat' : return m.newta(st, 'u8', m.flat(st, fr, a[0]))
        if p == 'Buffer.alloc': return m.newta(st, 'u8', rep(I(0), a[0]))
        if p == 'Object.entries': return m.alloc(st, 'array', m.oentries(st, a[0]))
        if p == 'Object.keys': return m.alloc(st, 'array', m.okeys(st, a[0]))
        if p == 'Object.values': return m.alloc(st, 'array', m.oentries(st, a[0], '1'))
        if p == 'Object.fromEntries':
            s = m.iter(st, fr, a[0], ty0)
            return ext('fromentries', s)
        if p == 'Object.freeze': return a[0]
        if p == 'Object.assign' and len(a) == 2 and a[0].op == 'jref':
            b = m.reify(st, a[1])
            if b.op == 'adt':
                for k, v in b.args[1]: m.setprop(st, fr, a[0], k, v)
                return a[0]
        if p in ('Math.max', 'Math.min') and len(a) == 1 and a[0].op == 'spread':
            return ext('maxof' if p == 'Math.max' else 'minof', a[0].args[0])
        if p in ('Math.max', 'Math.min') and len(a) == 2 and all(x.op != 'spread' for x in a):
            return TM.mnt(*a) if p == 'Math.min' else sub(add(*a), TM.mnt(*a))
        if p == 'Math.max' and a and a[-1].op == 'spread' and len(a) == 2: return ext('maxof', seq(one(a[0]), a[1].args[0]))
        if p in ('Math.floor', 'Math.trunc'):
            x = a[0]
            if x.op == 'fdiv' and nonneg(x.args[0]) and cst(x.args[1]): return m.div(x.args[0], cst(x.args[1]))
            if x.op in ('int', 'poly', 'len', 'num', 'udiv', 'urem', 'limb', 'shr'): return x
            return ext('floor', x)
        if p == 'Math.abs' and len(a) == 1:
            x = a[0]
            if TM.maybe_nan(x): return ext('jsabs', x)
            if TM._isnum(x): return ite(ge0(x), x, neg(x))
        if p == 'Math.ceil':
            x = a[0]
            if x.op == 'fdiv' and nonneg(x.args[0]) and cst(x.args[1]): return m.div(add(x.args[0], sub(x.args[1], I(1))), cst(x.args[1]))
            return x if x.op in ('int', 'poly', 'len') else ext('ceil', x)
        if p == 'Math.pow': return m.binop(st, fr, '**', a[0], a[1], 'number', 'number')
        if p == 'JSON.stringify':
            v = m.reify(st, a[0])
            if len(a) > 1 and any(x.op not in ('undef', 'null') for x in a[1:]): return ext('js_stringify', v, *A()[1:])
            return ext('js_stringify', v)
        if p == 'JSON.parse':
            x = m.reify(st, a[0])
            if len(a) > 1: return unk('reviver')
            m.throwif(st, fr, not_(ext('js_parse_ok', x))); return ext('js_parse', x)
        if p == 'TextEncoder().encode': return m.newta(st, 'u8', ext('utf8enc', a[0]) if a[0].op != 'str' else raw('bytes', a[0].args[0].encode()))
        if p == 'TextDecoder().decode': return ext('utf8dec', m.reify(st, a[0]))
        if p.startswith('TextDecoder(=') and p.endswith(').decode') and len(a) == 1: return ext('textdec', S(p[13:-8]), m.reify(st, a[0]))
        if p == 'TextDecoder(fatal).decode':
            x = m.reify(st, a[0]); m.throwif(st, fr, not_(ext('utf8_ok', x))); return ext('utf8dec', x)
        if p == 'String.fromCharCode': return ext('fromcharcode', *A())
        if p == 'Promise.all':
            c = m.deref(st, a[0])
            if c.op == 'arr': return raw('promise', -5, *c.args)
            return unk('promise')
        if p == 'Promise.resolve' and a and any(x.op == 'promise' for x in m.alts(a[0])): return a[0]
        if p == 'Promise.resolve': return raw('promise', -2, a[0]) if a else raw('promise', -2, UNDEF)
        if p == 'WebAssembly.compile': return raw('promise', -3, ext('compile_ok', m.reify(st, a[0])), ext('compile', m.reify(st, a[0])))
        if p == 'WebAssembly.instantiate':
            mod = m.reify(st, a[0])
            i = ext('instance', mod)
            if len(a) > 1: m.imports(st, a[1])
            st.store[('wasm', 'core')] = ext('core', i); st.store[('wasm', 'mem')] = ext('mem0', i)
            if mod.op == 'ext' and mod.args[0] == 'compile': return raw('promise', -3, ext('instantiate_ok', mod), i)
            i2 = ext('compile', mod)
            return raw('promise', -3, and_(ext('compile_ok', mod), ext('instantiate_ok', i2)), adt('obj', {'instance': ext('instance', i2), 'module': i2}))
        if p == 'structuredClone': return a[0]
        if p == 'Error': return adt('err', {'message': m.reify(st, a[0]) if a else S('')})
        if p == 'btoa' or p == 'atob': return ext(p, *A())
        return unk('builtin', S(p))
    RUNTIME = (('exceptionHandler', 1), ('printErrorMessage', 0), ('writeBufferMessage', 0), ('showSharedRWMemory', 0))
    def imports(m, st, o):
        """what the circuit's calls of the functions it imports come to (None: no such function)"""
        ke, ko, kt, kg = len(m.events), len(m.obls), len(m.throws), len(m.gwrites)
        try:
            for name, k in m.RUNTIME:
                q = st.fork(); fr = Frame(None); fr.this = None
                f = m.getprop(q, fr, m.getprop(q, fr, o, 'runtime', 'any', 'any'), name, 'any', 'any')
                if f.op == 'undef': m.imps[name] = None; continue
                r = m.callval(q, fr, f, [arg('code')] * k)
                m.imps[name] = m.finish(q, fr, None, Ok(m.reify(q, r)))
        except RecursionError: m.imps['exceptionHandler'] = unk('imports')
        del m.events[ke:]; del m.obls[ko:]; del m.throws[kt:]; del m.gwrites[kg:]
    def flat(m, st, fr, v):
        c = m.deref(st, v)
        if c.op == 'arr': return seq(*[x for x in c.args])
        return unk('concat')
    def bigint(m, st, fr, v, ty):
        if v.op == 'ite': return m.branch(st, v.args[0], lambda q: m.bigint(q, fr, v.args[1], ty), lambda q: m.bigint(q, fr, v.args[2], ty))
        k = m.jkind(v, ty)
        if v.op == 'str':
            s = v.args[0].strip()
            if re.fullmatch(r'-?\d+', s): return I(int(s))
            if re.fullmatch(r'0[xX][0-9a-fA-F]+', s): return I(int(s, 16))
        if k == 'number' and not TM.maybe_nan(v): return v
        if k == 'bigint': return v
        if v.op in ('int', 'poly', 'len', 'num'): return v
        v = m.reify(st, v)
        m.throwif(st, fr, not_(ext('bigint_ok', v)))
        return ext('bigint', v) if not st.dead else BOT
    # a circom witness calculator instance: its own state is opaque, the shared words are tracked
    def instcall(m, st, fr, inst, name, a):
        C, M = ('wasm', 'core'), ('wasm', 'mem')
        a = [m.reify(st, x) for x in a]
        if name in ('getVersion', 'getMinorVersion', 'getPatchVersion', 'getFieldNumLen32', 'getWitnessSize', 'getInputSize', 'getInputSignalSize'):
            return ext('inst:' + name, inst, *a)
        if name == 'readSharedRWMemory': return num('le', 4, sl(st.store[M], mul(I(4), a[0]), add(mul(I(4), a[0]), I(4))))
        if name == 'writeSharedRWMemory':
            st.store[M] = write(st.store[M], mul(I(4), a[0]), enc('le', 4, a[1] if nonneg(a[1]) else trunc('u32', a[1]))); return UNDEF
        if name == 'getRawPrime': st.store[M] = ext('rawprime', inst); return UNDEF
        if name == 'getWitness': st.store[M] = ext('witnessval', st.store[C], a[0]); return UNDEF
        if name == 'init': st.store[C] = ext('inited', inst, *a); return UNDEF
        if name == 'setInputSignal':
            r = ext('setinput', st.store[C], *a, st.store[M])
            m.throwif(st, fr, not_(ext('setinput_ok', *r.args[1:])))
            st.store[C] = r; return UNDEF
        if name == 'getMessageChar': return ext('ambient', S(name))
        return unk('instance', S(name))

def self_u8(v):
    if nonneg(v) and nonneg(sub(I(255), v)): return v
    if v.op == 'int': return I(v.args[0] % 256)
    if v.op == 'idx' or v.op == 'limb' and v.args[2] <= 8: return v
    return trunc('u8', v)
def substeq(x, g):
    d = g.args[0]
    for mm, k in (d.args if d.op == 'poly' else (((d,), 1),)):
        if len(mm) == 1 and k in (1, -1) and any(mm[0] is y for y in walk(x)):
            v = add(mm[0], mul(I(-k), d))
            return substany(x, {mm[0]: v})
    return x
def split_top(t):
    out = []; d = 0; cur = ''
    for i, ch in enumerate(t):
        if ch in '<({[': d += 1
        elif ch in ')}]' or ch == '>' and t[i - 1] != '=': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + ([cur.strip()] if cur.strip() else [])
