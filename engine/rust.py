"""Gated value graph of the repository's Rust functions, from the typed HIR dump."""
import json, re
from machine import *

def head(ty):
    t = ty or ''
    while True:
        t = t.strip()
        if t.startswith('&'):
            t = re.sub(r"^&('\w+ )?(mut )?", '', t); continue
        if t.startswith('std::boxed::Box<') and t.endswith('>'): t = t[len('std::boxed::Box<'):-1]; continue
        return t
def base(ty): return head(ty).split('<')[0]
INTS = set(BITS)
def isint(ty): return head(ty) in INTS
def isopt(ty): return head(ty).startswith('std::option::Option')
def isres(ty): return head(ty).startswith('std::result::Result')

STDV = {'core::option::Option::Some': 'Some', 'core::option::Option::None': 'None', 'core::result::Result::Ok': 'Ok', 'core::result::Result::Err': 'Err'}

UF, NUF = set(), set()
class Prog:
    """all function bodies of the three crates"""
    def __init__(s, outdir, names=('core', 'cli', 'js', 'spec')):
        s.fns = {}; s.types = {}; s.crates = {}; s.impls = []
        for n in names:
            try: d = json.load(open('%s/%s.json' % (outdir, n)))
            except Exception: continue
            s.crates[d.get('crate', n)] = d
            for b in d['bodies']:
                b['crate'] = d.get('crate', n)
                s.fns.setdefault(b['path'], b)
            for t in d['types']: s.types[t['path']] = t
            s.unsigned(d)
            for i in d['impls']: s.impls.append(i)
        UNSIGNED_FLD.update(x for x in UF - NUF if not x.isdigit())
    def recursive(s):
        if getattr(s, '_rec', None) is None:
            calls = {}
            def go(x, out):
                if isinstance(x, dict):
                    if isinstance(x.get('path'), str): out.add(x['path'])
                    for v in x.values(): go(v, out)
                elif isinstance(x, list):
                    for v in x: go(v, out)
            for q, b in s.fns.items():
                o = set(); go(b.get('body'), o); calls[q] = {x for x in o if x in s.fns}
            s._rec = set()
            for q in calls:
                seen = set(); st = list(calls[q])
                while st:
                    x = st.pop()
                    if x in seen: continue
                    seen.add(x); st += calls.get(x, ())
                if q in seen: s._rec.add(q)
        return s._rec
    def unsigned(s, d):
        for t in d['types']:
            if t['kind'] == 'Enum': VARIANTS[t['path'].split('::')[-1]] = [v['name'] for v in t['variants']]
            if t['kind'] == 'Struct' and t['variants']: DERIVED[t['path']] = DERIVED['::'.join(t['path'].split('::')[1:])] = sorted((f['name'], f.get('ty') or '') for f in t['variants'][0]['fields'])
            if t['kind'] == 'Enum' and t['variants'] and all('discr' in v for v in t['variants']): DISCR[t['path'].split('::')[-1]] = {v['name']: v['discr'] for v in t['variants']}
            for v in t['variants']:
                for f in v['fields']: (UF if f.get('ty') in ('u8', 'u16', 'u32', 'u64', 'usize') else NUF).add(f['name'])

DISCR = {}
DERIVED = {}     # fields of the local structures (a Default of theirs that is not written out is the derived one)
CMP = {'<': lt, '<=': le, '>': gt, '>=': ge}
def inrange(o, a, b, ty):
    """a comparison of two values of type ty: the bounds of the type decide it when one side is an extreme value"""
    if ty in BITS and ty[0] in 'ui':
        if a.op == 'ite': return ite(a.args[0], inrange(o, a.args[1], b, ty), inrange(o, a.args[2], b, ty))
        if b.op == 'ite': return ite(b.args[0], inrange(o, a, b.args[1], ty), inrange(o, a, b.args[2], ty))
        n = BITS[ty]; lo, hi = (0, (1 << n) - 1) if ty[0] == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        x, y = cst(a), cst(b)
        if (o == '<=' and (y == hi or x == lo)) or (o == '>=' and (y == lo or x == hi)): return TRUE
        if (o == '<' and (y == lo or x == hi)) or (o == '>' and (y == hi or x == lo)): return FALSE
    return CMP[o](a, b)

def norm_ty(t):
    t = re.sub(r"'\w+ ?", '', t or '')
    return re.sub(r'<>', '', t).strip()
def fnret(t):
    """the return type written in the type of a function item"""
    i = (t or '').rfind(') -> ')
    return t[i + 5:].split(' {')[0].rstrip('}') if i >= 0 else ''

_MIX = {}
def mixed(v):
    """a place that depends on a condition"""
    if v.op != 'ite': return False
    r = _MIX.get(v)
    if r is None: r = _MIX[v] = any(x.op == 'ref' or mixed(x) for x in v.args[1:])
    return r
def below(r, path):
    """the place `path` within the place r"""
    if r.op == 'ite': return ite(r.args[0], below(r.args[1], path), below(r.args[2], path))
    return raw('ref', r.args[0], r.args[1] + tuple(path)) if r.op == 'ref' else r
class Rust(Machine):
    def __init__(m, prog, opaque=(), trace=True):
        super().__init__()
        m.prog = prog; m.opaque = set(opaque); m.inl = []
        m.unmodelled = {}; m.narrow = {}; m.monos = {}; m.accmode = {}
        m.curfn = None

    # ---------------------------------------------------------------- entry
    def run(m, path, args, st=None):
        b = m.prog.fns.get(path)
        if b is None: raise KeyError(path)
        st = st or St()
        v = m.invoke(st, b, args)
        return v, st

    def invoke(m, st, b, args):
        if len(m.inl) > m.maxdepth: return unk('depth')
        if b['path'] not in m.accmode:
            r = m.appending(st, b, args)
            if r is not None: return r
        fr = Frame(b)
        n = len(st.pc)
        m.inl.append(b['path']); m.stack.append(b['path']); m.called.add(b['path'])
        try:
            for p, a in zip(b['params'], args):
                m.bindpat(st, fr, p['pat'], a)
            v = m.ev(b['body'], st, fr)
            return m.finish(st, fr, n, v)
        finally:
            m.inl.pop(); m.stack.pop()

    def appending(m, st, b, args):
        """a recursive function that only appends to a list it is given, as the function that returns what it appends"""
        if b['path'] not in m.prog.recursive() or norm_ty(b.get('sigret') or '()') != '()': return None
        k = [i for i, (p, a) in enumerate(zip(b['params'], args)) if a.op == 'ref' and p['ty'].startswith('&mut ') and 'vec::Vec<' in p['ty']]
        if len(k) != 1 or any(a.op == 'ref' for i, a in enumerate(args) if i != k[0]): return None
        i = k[0]; old = m.val(st, args[i]); q = st.fork(); ne, no = len(m.events), len(m.obls)
        m.fresh += 1; A = arg('acc!%d' % m.fresh)
        m.write(q, args[i], A); m.accmode[b['path']] = i
        try: v = m.invoke(q, b, args)
        finally: del m.accmode[b['path']]
        def strip(t):
            if t is A: return EMPTY
            if t.op == 'seq' and t.args[0] is A: return seq(*t.args[1:])
            if t.op == 'ite':
                x, y = strip(t.args[1]), strip(t.args[2])
                return None if x is None or y is None else seq(site(t.args[0], x, y))
        has = lambda t: isinstance(t, T) and any(x is A for x in walk(t))
        new = strip(m.val(q, args[i])) if not q.dead else None
        if new is None or has(new) or v is not UNIT or any(has(c) for c in q.pc) or any(has(x) for e in m.events[ne:] for x in (*e[1], *e[2])) or any(has(x) for e in m.obls[no:] for x in e):
            del m.events[ne:], m.obls[no:]
            return None
        m.write(q, args[i], seq(old, new))
        st.store, st.pc, st.dead = q.store, q.pc, q.dead
        return UNIT

    def mono(m, b, subs):
        """the body with its type and constant parameters replaced by the arguments of the call"""
        g = b.get('gen') or []
        if not g or len(g) != len(subs) or list(g) == list(subs): return b
        key = (b['path'], tuple(subs)); c = m.monos.get(key)
        if c is None:
            t = dict(zip(g, subs)); rx = re.compile(r'(?<![\w:])(' + '|'.join(map(re.escape, g)) + r')(?!\w|::)')
            rep_ = lambda s: rx.sub(lambda q: t[q.group(1)], s)
            def go(x, k=None):
                if isinstance(x, list): return [go(y, k) for y in x]
                if isinstance(x, dict):
                    if x.get('k') == 'path' and (x.get('res') or {}).get('kind') == 'ConstParam':
                        v = t.get(x['res'].get('src'))
                        if v is not None and re.fullmatch(r'-?\d+', v): return {'k': 'lit', 'lit': {'l': 'int', 'v': v}, 'ty': x.get('ty', ''), 'sp': x.get('sp')}
                    return {q: go(y, q) for q, y in x.items()}
                if isinstance(x, str) and k in ('ty', 'subs', 'sigret', 'ret', 'path'): return rep_(x) if k != 'path' else x
                return x
            c = m.monos[key] = go(b)
        return c
    def callclo(m, st, f, args, where=None):
        f = m.val(st, f)
        if f.op == 'clo':
            node, fr0 = m.clos[f.args[0]]
            m.ncalled.add(f.args[0])
            fr = Frame(fr0.fn, fr0)
            n = len(st.pc)
            for p, a in zip(node['params'], args): m.bindpat(st, fr, p, a)
            v = m.ev(node['body'], st, fr)
            return m.finish(st, fr, n, v)
        if f.op == 'fn':
            return m.callpath(st, f.args[0], list(args), {'k': 'call', 'args': [], 'ty': fnret(f.args[1]) if len(f.args) > 1 else ''}, None, list(f.args[2]) if len(f.args) > 2 else [])
        if f.op == 'ctor': return m.ctor(f.args[0], args)
        if f.op == 'ite':
            return m.branch(st, f.args[0], lambda q: m.callclo(q, f.args[1], args), lambda q: m.callclo(q, f.args[2], args))
        return unk('call', f)

    # ---------------------------------------------------------------- places
    def val(m, st, v):
        k = 0
        while v.op == 'ref' and k < 20: v = m.read(st, v); k += 1
        if mixed(v): return ite(v.args[0], m.val(st, v.args[1]), m.val(st, v.args[2]))
        return v
    def read(m, st, r):
        if r.op == 'ite': return ite(r.args[0], m.read(st, r.args[1]), m.read(st, r.args[2]))
        if r.op != 'ref': return r
        v = st.store.get(r.args[0], BOT)
        for p in r.args[1]:
            if v.op == 'ref': v = m.val(st, v)
            v = m.proj(v, p)
        return v
    def proj(m, v, p):
        if isinstance(p, str): return fld(v, p)
        if p[0] == 'idx': return idx(v, p[1])
        if p[0] == 'sl': return sl(v, p[1], p[2])
        if p[0] == 'pl': return pl(v, p[1], p[2])
        if p[0] == 'get': return pl(mget(v, p[1]), 'Some', 0)
        if p[0] == 'idxobj':
            O = 'serde_json::Value::Object'; g = mget(pl(v, O, 0), p[1])
            return ite(and_(isv(v, O), isv(g, 'Some')), pl(g, 'Some', 0), var('serde_json::Value::Null'))
        return unk('proj')
    def write(m, st, r, v, g=TRUE):
        if r.op == 'ite':
            # one of several places, depending on a condition
            m.write(st, r.args[1], v, and_(g, r.args[0])); m.write(st, r.args[2], v, and_(g, not_(r.args[0])))
            return
        if r.op != 'ref': return
        if g is not TRUE: v = ite(g, m.val(st, v), m.val(st, r))
        cell, path = r.args
        cur = st.store.get(cell, BOT)
        # follow references stored on the way
        st.store[cell] = m.wr(st, cur, path, v)
    def wr(m, st, cur, path, v):
        if not path: return v
        if cur.op == 'ref':
            # the cell holds a reference: write through it
            m.write(st, raw('ref', cur.args[0], cur.args[1] + tuple(path)), v)
            return cur
        if mixed(cur):
            m.write(st, below(cur, tuple(path)), v)
            return cur
        p, rest = path[0], path[1:]
        new = m.wr(st, m.proj(cur, p), rest, v)
        if isinstance(p, str): return setfld(cur, p, new)
        if p[0] == 'idx': return upd(cur, p[1], new)
        if p[0] == 'sl': return write(cur, p[1], new)
        if p[0] == 'pl':
            if cur.op == 'var' and cur.args[0] == p[1]:
                l = list(cur.args[1]); l[p[2]] = new
                return var(p[1], *l)
            return var(p[1], new)
        if p[0] == 'get': return minsert(cur, p[1], new)
        return unk('write')

    def place(m, n, st, fr):
        """reference term to the place denoted by node n"""
        k = n['k']
        if k == 'path' and n['res']['r'] == 'local':
            c = fr.find(n['res']['id'])
            if c is None: return m.temp(st, unk('local', S(n['res'].get('name', '?'))))
            v = st.store.get(c, BOT)
            if v.op == 'ref' or mixed(v): return v
            return raw('ref', c, ())
        if k == 'field':
            p = m.place(n['a'], st, fr)
            if p.op == 'ite': return below(p, (n['name'],))
            cur = m.read(st, p)
            while cur.op == 'ref': p = cur; cur = m.read(st, p)
            return raw('ref', p.args[0], p.args[1] + (n['name'],))
        if k == 'index':
            p = m.place(n['a'], st, fr)
            i = m.val(st, m.ev(n['i'], st, fr))
            cur = m.val(st, m.read(st, p))
            return below(p, (m.idxstep(st, cur, i, n),))
        if k == 'un' and n['op'] == '*':
            v = m.ev(n['a'], st, fr)
            if v.op == 'ref' or mixed(v): return v
            return m.temp(st, v)
        if k == 'ref': return m.place(n['a'], st, fr)
        if k == 'block' and not n['b']['stmts'] and n['b']['expr']: return m.place(n['b']['expr'], st, fr)
        v = m.ev(n, st, fr)
        if v.op == 'ref' or mixed(v): return v
        return m.temp(st, v)
    def temp(m, st, v):
        m.fresh += 1
        c = ('t', m.fresh)
        st.store[c] = v
        return raw('ref', c, ())
    def idxstep(m, st, cur, i, n):
        bt = base(n['a'].get('ty', ''))
        if 'HashMap' in bt or 'BTreeMap' in bt or bt.startswith('serde_json::Map') or bt == 'serde_json::Value' and head(n['i'].get('ty', '')) in ('str', 'std::string::String'):
            if bt == 'serde_json::Value': cur = ite(isv(cur, 'serde_json::Value::Object'), pl(cur, 'serde_json::Value::Object', 0), mapt(EMPTY)); return ('idxobj', i)
            m.need(st, 'map-index', isv(mget(cur, i), 'Some'), n.get('sp'))
            return ('get', i)
        if i.op == 'rng':
            lo, hi = i.args
            lo = lo if lo.op != 'none' else I(0)
            hi = hi if hi.op != 'none' else ln(cur)
            m.need(st, 'slice', and_(ge(hi, lo), ge(ln(cur), hi)), n.get('sp'))
            return ('sl', lo, hi)
        m.need(st, 'index', ge(sub(ln(cur), I(1)), i), n.get('sp'))
        return ('idx', i)

    # ---------------------------------------------------------------- patterns
    def bindpat(m, st, fr, p, v):
        c = m.pat(st, fr, p, v)
        return c
    def pat(m, st, fr, p, v):
        """condition under which v matches p; binds the variables of p in fr/st"""
        k = p['p']
        if k == 'wild' or k == 'rest': return TRUE
        if k == 'bind':
            if p.get('sub'):
                c = m.pat(st, fr, p['sub'], v)
            else: c = TRUE
            cell = (fr.uid, p['id'])
            fr.vars[p['id']] = cell
            if p.get('byref', 'No') not in ('No',) and 'mut' in p.get('ty', ''):
                pass
            st.store[cell] = v
            return c
        isref = v.op == 'ref'
        rv = m.val(st, v)
        def sub_(step):
            if isref and v.op == 'ref':
                r = v
                w = m.read(st, r)
                while w.op == 'ref': r = w; w = m.read(st, r)
                return raw('ref', r.args[0], r.args[1] + (step,))
            return m.proj(rv, step)
        if k == 'ref' or k == 'box': return m.pat(st, fr, p.get('sub') or p.get('a'), rv)
        if k == 'tuple':
            subs = p['subs']; dd = p.get('dd')
            cs = []
            n = None
            for i, q in enumerate(subs):
                j = i
                if dd is not None and i >= dd: j = None
                if j is None:
                    tot = len(rv.args) if rv.op == 'tup' else None
                    j = tot - (len(subs) - i) if tot is not None else i
                cs.append(m.pat(st, fr, q, sub_(str(j))))
            return and_(*cs)
        if k in ('tstruct', 'struct'):
            res = p['res']; path = res.get('ctor_of') or res.get('path', '')
            vn = STDV.get(path, path)
            kind = res.get('kind', '')
            isvariant = 'Variant' in kind or path in STDV
            cs = []
            if isvariant:
                cs.append(isv(rv, vn))
                if k == 'tstruct':
                    for i, q in enumerate(p['subs']): cs.append(m.pat(st, fr, q, sub_(('pl', vn, i))))
                else:
                    names = m.variant_fields(path)
                    for (nme, q) in p['fields']:
                        i = names.index(nme) if nme in names else 0
                        cs.append(m.pat(st, fr, q, sub_(('pl', vn, i))))
            else:
                if k == 'tstruct':
                    for i, q in enumerate(p['subs']): cs.append(m.pat(st, fr, q, sub_(str(i))))
                else:
                    for (nme, q) in p['fields']: cs.append(m.pat(st, fr, q, sub_(nme)))
            return and_(*cs)
        if k == 'or':
            # bindings of alternatives: merge
            cs = []; snaps = []
            for q in p['subs']:
                s2 = st.fork(); c = m.pat(s2, fr, q, v)
                cs.append(c); snaps.append(s2)
            out = snaps[-1].store
            for c, s2 in list(zip(cs, snaps))[-2::-1]: out = m.merge_store(c, s2.store, out)
            st.store = dict(out)
            return or_(*cs)
        if k == 'expr':
            e = p['e']
            w = m.patexpr(e, st, fr)
            return m.eqv(rv, w)
        if k == 'path':
            path = p['res'].get('ctor_of') or p['res'].get('path', '')
            vn = STDV.get(path, path)
            if 'Const' in p['res'].get('kind', '') and 'Ctor' not in p['res'].get('kind', ''):
                return m.eqv(rv, m.const(path))
            return isv(rv, vn)
        if k == 'range':
            cs = []
            if p.get('lo'): cs.append(ge(rv, m.patexpr(p['lo'], st, fr)))
            if p.get('hi'):
                h = m.patexpr(p['hi'], st, fr)
                cs.append(ge(h, rv) if p.get('incl') else lt(rv, h))
            return and_(*cs)
        if k == 'slice':
            pre, mid, post = p.get('pre', []), p.get('mid'), p.get('post', [])
            n = I(len(pre) + len(post))
            c = [ge(ln(rv), n) if mid is not None else eq(ln(rv), n)]
            for i, q in enumerate(pre): c.append(m.pat(st, fr, q, sub_(('idx', I(i)))))
            for i, q in enumerate(post): c.append(m.pat(st, fr, q, sub_(('idx', sub(ln(rv), I(len(post) - i))))))
            if mid is not None and isinstance(mid, dict): c.append(m.pat(st, fr, mid, sub_(('sl', I(len(pre)), sub(ln(rv), I(len(post)))))))
            return and_(*c)
        if k == 'guard':
            c = m.pat(st, fr, p['sub'], v)
            return and_(c, m.val(st, m.ev(p['e'], st, fr)))
        return unk('pat', S(k))
    def patexpr(m, e, st, fr):
        if e.get('k') == 'lit':
            v = m.lit(e['lit'])
            return neg(v) if e.get('neg') else v
        if e.get('k') == 'path': return m.ev({'k': 'path', 'res': e['res'], 'ty': ''}, st, fr)
        return m.ev(e, st, fr)
    def variant_fields(m, path):
        tp, vn = path.rsplit('::', 1)
        t = m.prog.types.get(tp)
        if t:
            for v in t['variants']:
                if v['name'] == vn: return sorted(f['name'] for f in v['fields'])
        return []
    def eqv(m, a, b):
        if b.op == 'var' and not b.args[1]: return isv(a, b.args[0])
        return eq(a, b)

    # ---------------------------------------------------------------- expressions
    def lit(m, l):
        k = l['l']
        if k == 'int': return I(int(l['v']))
        if k == 'str': return S(l['v'])
        if k == 'bytes': return raw('bytes', bytes(l['v']))
        if k == 'bool': return B(l['v'])
        if k == 'char': return S(l['v'])
        if k == 'float': return raw('float', l['v'])
        return unk('lit')

    def ev(m, n, st, fr):
        if st.dead: return BOT
        m.steps += 1
        if m.steps > 400000: raise Limit()
        f = getattr(m, 'e_' + n['k'], None)
        if f is None: return unk('node', S(n['k']))
        return f(n, st, fr)
    def v(m, n, st, fr):
        return m.val(st, m.ev(n, st, fr)) if not st.dead else BOT

    def e_lit(m, n, st, fr): return m.lit(n['lit'])
    def e_path(m, n, st, fr):
        r = n['res']
        if r['r'] == 'local':
            c = fr.find(r['id'])
            return st.store.get(c, BOT) if c is not None else unk('local', S(r.get('name', '?')))
        if r['r'] == 'def':
            k = r['kind']
            if k.startswith('Ctor'):
                path = r.get('ctor_of', r['path'])
                if 'Const' in k: return var(STDV.get(path, path))
                return raw('ctor', path)
            if k in ('Fn', 'AssocFn'): return raw('fn', r['path'], n.get('ty', ''), tuple(r.get('subs', [])))
            if k in ('Const', 'AssocConst', 'Static') or k.startswith(('Const', 'AssocConst', 'Static')): return m.const(r['path'], n)
            return unk('def', S(k))
        if r['r'] == 'selfctor':
            f = fr
            while f is not None and not (f.fn and f.fn.get('impl_self')): f = f.parent
            return raw('ctor', 'Self:' + (f.fn['impl_self'].split('<')[0] if f else ''))
        return unk('path', S(r['r']))
    def const(m, path, n=None):
        b = m.prog.fns.get(path)
        cell = re.search(r'Atomic|Once|Lazy|Mutex|RwLock|Cell|LocalKey', n.get('ty', '')) if n is not None else None
        if cell: return ext('static', S(path.split('::')[-1]))
        if b is not None and path not in m.inl:
            st = St(); fr = Frame(b)
            m.inl.append(path)
            try:
                v = m.ev(b['body'], st, fr)
                return m.val(st, v) if v is not None else unk('const')
            finally: m.inl.pop()
        last = path.split('::')[-1]
        if last in ('MAX', 'MIN', 'BITS') and n is not None:
            ty = head(n.get('ty', '')) if last != 'BITS' else None
            if ty in BITS:
                if last == 'MAX': return I((1 << BITS[ty]) - 1 if ty[0] == 'u' else (1 << (BITS[ty] - 1)) - 1)
                return I(0 if ty[0] == 'u' else -(1 << (BITS[ty] - 1)))
        return raw('const', path)
    def e_tup(m, n, st, fr): return tup(*[m.shed(m.ev(a, st, fr), st) for a in n['args']])
    def e_array(m, n, st, fr):
        xs = [m.shed(m.ev(a, st, fr), st) for a in n['args']]
        if not xs: return EMPTY
        if re.match(r'&?\[u8[;\]]', n.get('ty', '')) and all(cst(x) is not None for x in xs): return raw('bytes', bytes(cst(x) & 255 for x in xs))
        return arr(*xs)
    def shed(m, v, st): return v
    def e_repeat(m, n, st, fr):
        v = m.v(n['v'], st, fr)
        mm = re.search(r';\s*(\d+)(_?usize)?\]$', n.get('ty', ''))
        if mm: return rep(v, I(int(mm.group(1))))
        if n.get('n'): return rep(v, m.v(n['n'], st, fr))
        return rep(v, unk('replen'))
    def e_block(m, n, st, fr):
        if n.get('label'):
            ctx = LoopCtx(n['label'], n['label']); fr.loops.append(ctx)
            v = m.block(n['b'], st, fr)
            fr.loops.pop()
            outs = [(pc, s, w) for pc, s, w in ctx.breaks]
            if outs:
                # labelled block: fold the breaks
                base_ = 0
                for pc, s, w in outs:
                    if st.dead: st.store, st.pc, st.dead = dict(s), pc, False; v = w or UNIT
                    else:
                        k = 0
                        while k < len(pc) and k < len(st.pc) and pc[k] is st.pc[k]: k += 1
                        c1 = and_(*pc[k:])
                        st.store = m.merge_store(c1, s, st.store)
                        v = m.mite(c1, w or UNIT, v)
                        j = or_(c1, and_(*st.pc[k:])); st.pc = pc[:k] + ((j,) if j is not TRUE else ())
            return v
        return m.block(n['b'], st, fr)
    def block(m, b, st, fr):
        for s in b['stmts']:
            if st.dead: return BOT
            if s['s'] == 'let': m.let(s, st, fr)
            elif s['s'] in ('semi', 'expr'): m.ev(s['e'], st, fr)
        if st.dead: return BOT
        return m.ev(b['expr'], st, fr) if b.get('expr') else UNIT
    def let(m, s, st, fr):
        if s.get('init') is None:
            m.declare(s['pat'], st, fr); return
        v = m.ev(s['init'], st, fr)
        if st.dead: return
        c = m.pat(st, fr, s['pat'], v)
        if s.get('els'):
            if c is TRUE: return
            s2 = st.fork(not_(c))
            e = s['els']
            m.block(e['b'] if 'b' in e else e, s2, fr)
            st.know(c)
    def declare(m, p, st, fr):
        if p['p'] == 'bind':
            cell = (fr.uid, p['id']); fr.vars[p['id']] = cell; st.store[cell] = BOT
        for q in p.get('subs', []) or []: m.declare(q, st, fr)

    def e_let(m, n, st, fr):
        v = m.ev(n['init'], st, fr)
        return m.pat(st, fr, n['pat'], v) if not st.dead else BOT
    def e_if(m, n, st, fr):
        return m.cond(n['c'], st, fr, lambda q: m.ev(n['t'], q, fr), lambda q: m.ev(n['e'], q, fr) if n.get('e') else UNIT)
    def cond(m, c, st, fr, f1, f2):
        """if c then f1 else f2, keeping the bindings of let-chains visible in f1 only"""
        if c['k'] == 'bin' and c['op'] == '&&' and m.haslet(c):
            return m.cond(c['a'], st, fr, lambda q: m.cond(c['b'], q, fr, f1, f2), f2)
        if c['k'] in ('block',) and not c['b']['stmts'] and c['b'].get('expr'): c = c['b']['expr']
        v = m.val(st, m.ev(c, st, fr))
        if st.dead: return BOT
        return m.branch(st, v, f1, f2)
    def haslet(m, c):
        if c['k'] == 'let': return True
        if c['k'] == 'bin' and c['op'] == '&&': return m.haslet(c['a']) or m.haslet(c['b'])
        return False
    def e_match(m, n, st, fr):
        src = n.get('src')
        if src == 'try': return m.tryop(n, st, fr)
        if src == 'for': return m.forloop(n, st, fr)
        v = m.ev(n['e'], st, fr)
        if st.dead: return BOT
        return m.arms(n['arms'], 0, v, st, fr)
    def arms(m, arms, i, v, st, fr):
        if i >= len(arms):
            st.dead = True; return BOT
        a = arms[i]
        c = m.pat(st, fr, a['pat'], v)
        if a.get('guard'):
            # bindings are visible in the guard
            s2 = st.fork(c)
            g = m.val(s2, m.ev(a['guard'], s2, fr)) if not s2.dead else FALSE
            c = and_(c, g)
        if i == len(arms) - 1 and not a.get('guard'):
            return m.ev(a['body'], st, fr)
        return m.branch(st, c, lambda q: m.ev(a['body'], q, fr), lambda q: m.arms(arms, i + 1, v, q, fr))
    def tryop(m, n, st, fr):
        inner = n['e']['args'][0]
        x = m.v(inner, st, fr)
        if st.dead: return BOT
        ty = inner.get('ty', '')
        good, bad = ('Some', 'None') if isopt(ty) else ('Ok', 'Err')
        c = isv(x, good)
        if c is not TRUE:
            s2 = st.fork(not_(c))
            if not s2.dead: m.exit(s2, fr, NONE if bad == 'None' else Err(pl(x, 'Err', 0)))
            st.know(c)
        return pl(x, good, 0)
    def e_ret(m, n, st, fr):
        v = m.ev(n['v'], st, fr) if n.get('v') else UNIT
        if not st.dead: m.exit(st, fr, v)
        return BOT
    def findloop(m, n, fr):
        for c in reversed(fr.loops):
            if c.lid == n.get('to'): return c
        return None
    def e_break(m, n, st, fr):
        v = m.ev(n['v'], st, fr) if n.get('v') else None
        c = m.findloop(n, fr)
        if c is not None and not st.dead: c.breaks.append((st.pc, st.store, v))
        st.dead = True
        return BOT
    def e_continue(m, n, st, fr):
        c = m.findloop(n, fr)
        if c is not None and not st.dead: c.conts.append((st.pc, st.store))
        st.dead = True
        return BOT
    def e_loop(m, n, st, fr):
        # while loops are `loop { if c { body } else { break } }`
        return m.loop(st, fr, INF, lambda q, b: m.block(n['body'], q, fr), n['id'], n['id'])
    def forloop(m, n, st, fr):
        import models
        it = n['e']['args'][0]
        lp = n['arms'][0]['body']
        while lp['k'] == 'block': lp = lp['b']['expr']
        inner = lp['body']['stmts'][0]['e'] if lp['body']['stmts'] else lp['body']['expr']
        some = [a for a in inner['arms'] if a['pat']['p'] in ('tstruct', 'struct') and (a['pat'].get('subs') or a['pat'].get('fields'))][0]
        pat = some['pat']['subs'][0] if some['pat'].get('subs') else some['pat']['fields'][0][1]
        body = some['body']; lid = lp['id']
        # a user-defined or stateful iterator held in a variable is consumed through its reference
        x = m.ev(it, st, fr)
        if st.dead: return BOT
        ref = x if x.op == 'ref' else None
        v = m.val(st, x)
        if ref is not None and head(it.get('ty', '')) and it.get('ty', '').startswith('&mut') and not models.ismap_t(it['ty']):
            if head(it['ty']).startswith(('std::vec::Vec', '[')): v = raw('mutit', ref.args[0], ref.args[1], ln(v))
        s = v if v.op in ('mutit', 'mutenum', 'mutzip', 'mutzipr') else models.asseq(m, v, it.get('ty', ''))
        go = lambda q, e: (m.pat(q, fr, pat, e), m.ev(body, q, fr))[1]
        if s is None:
            if v.op == 'rng': return m.loop(st, fr, INF, lambda q, b: go(q, add(v.args[0], b)), lid, lid)
            s = unk('iter', v)
        m.foreach(st, fr, s, go, lid, lid)
        return UNIT
    def e_closure(m, n, st, fr):
        m.fresh += 1
        m.clos[m.fresh] = (n, fr)
        return raw('clo', m.fresh)
    def e_assign(m, n, st, fr):
        v = m.ev(n['b'], st, fr)
        if st.dead: return BOT
        m.store_to(n['a'], v, st, fr)
        return UNIT
    def store_to(m, a, v, st, fr):
        if a['k'] == 'path' and a['res']['r'] == 'local':
            c = fr.find(a['res']['id'])
            if c is not None: st.store[c] = v
            return
        if a['k'] == 'tup':
            for i, x in enumerate(a['args']): m.store_to(x, fld(m.val(st, v), str(i)), st, fr)
            return
        if a['k'] == 'path' or a['k'] == 'wild': return
        p = m.place(a, st, fr)
        m.write(st, p, v)
    def e_assignop(m, n, st, fr):
        b = m.v(n['b'], st, fr)
        if st.dead: return BOT
        p = m.place(n['a'], st, fr)
        cur = m.val(st, m.read(st, p))
        r = m.binop(n['op'].rstrip('='), cur, b, n['a'].get('ty', ''), n, st)
        m.write(st, p, r)
        return UNIT
    def e_field(m, n, st, fr):
        a = n['a']
        v = m.v(a, st, fr)
        return fld(v, n['name']) if not st.dead else BOT
    def e_index(m, n, st, fr):
        a = m.v(n['a'], st, fr); i = m.v(n['i'], st, fr)
        if st.dead: return BOT
        return m.proj(a, m.idxstep(st, a, i, n))
    def e_ref(m, n, st, fr):
        if n.get('mut'): return m.place(n['a'], st, fr)
        v = m.ev(n['a'], st, fr)
        return m.val(st, v) if not st.dead else BOT
    def e_un(m, n, st, fr):
        v = m.v(n['a'], st, fr)
        if st.dead: return BOT
        o = n['op']
        if o == '*': return v
        if o == '!': return not_(v) if head(n.get('ty', '')) == 'bool' else ext('bnot', v)
        if o == '-': return neg(v)
        return unk('un')
    def e_bin(m, n, st, fr):
        o = n['op']
        if o in ('&&', '||'):
            a = m.v(n['a'], st, fr)
            if st.dead: return BOT
            if o == '&&': return m.branch(st, a, lambda q: m.v(n['b'], q, fr), lambda q: FALSE)
            return m.branch(st, a, lambda q: TRUE, lambda q: m.v(n['b'], q, fr))
        a = m.v(n['a'], st, fr); b = m.v(n['b'], st, fr)
        if st.dead: return BOT
        return m.binop(o, a, b, n['a'].get('ty', ''), n, st)
    def binop(m, o, a, b, ty, n, st):
        if o == '+':
            if head(ty) in ('std::string::String', 'str'): return cat(a, b)
            if 'LinearCombination' in ty: return raw('lcadd', a, b)
            if head(ty) in BITS and TM.disjoint(a, b, byte := lambda x: m.narrow.get(x) == 8 or TM.isbyte(x)): return TM.bytes_poly(add(a, b), byte)
            return add(a, b)
        if o == '-':
            if head(ty) in INTS and head(ty)[0] == 'u': m.need(st, 'sub-underflow', ge(a, b), n.get('sp'))
            return sub(a, b)
        if o == '*': return mul(a, b)
        if o == '/':
            if not isint(ty): return mul(a, inv(b))
            m.need(st, 'div-zero', not_(eq(b, I(0))), n.get('sp'))
            return udiv(a, b)
        if o == '%':
            m.need(st, 'div-zero', not_(eq(b, I(0))), n.get('sp'))
            return urem(a, b)
        if o == '==': return m.eqv(a, b)
        if o == '!=': return not_(m.eqv(a, b))
        if o in ('<', '<=', '>', '>='): return inrange(o, a, b, head(ty))
        if o == '&':
            if head(ty) == 'bool': return and_(a, b)
            return band(a, b)
        if o == '|':
            if head(ty) == 'bool': return or_(a, b)
            if a is I(0) or b is I(0): return a if b is I(0) else b
            byte = lambda x: m.narrow.get(x) == 8 or TM.isbyte(x)
            if TM.disjoint(a, b, byte): return TM.bytes_poly(add(a, b), byte)
            return raw('bor', *sorted((a, b), key=lambda x: x.id))
        if o == '^':
            if head(ty) == 'bool': return not_(eq(a, b))
            return raw('bxor', *sorted((a, b), key=lambda x: x.id))
        if o == '<<':
            k = cst(b)
            if k is None: return raw('shl', a, b)
            v = mul(a, I(1 << k)); w = BITS.get(head(ty))
            if head(ty) in BITS and head(ty)[0] == 'u' and a.op != 'int':
                f = TM.bitfields(v, lambda x: m.narrow.get(x) == 8 or TM.isbyte(x))
                if f is not None and all(y <= w for _, y in f) or nonneg(sub(I((1 << w) - 1), v)): return v
                return trunc(head(ty), v)
            return v
        if o == '>>':
            k = cst(b)
            if k is not None and head(ty) in BITS and head(ty)[0] == 'u': return TM.shr(a, I(k))
            return udiv(a, I(1 << k)) if k is not None else raw('shr', a, b)
        return unk('bin', S(o))
    def e_cast(m, n, st, fr):
        v = m.v(n['a'] if 'a' in n else n['e'], st, fr)
        if st.dead: return BOT
        src = head((n.get('a') or n.get('e')).get('ty', '')); dst = head(n.get('ty', ''))
        if src in BITS and dst in BITS and src[0] == 'i' and dst[0] == 'u' and not nonneg(v) and assume(ge0(v), st.pc) is TRUE: return v if BITS[dst] >= BITS[src] else trunc(dst, v)
        return m.cast(v, src, dst)
    def cast(m, v, src, dst):
        if src == 'bool' and dst in BITS: return ite(v, I(1), I(0))
        if src in BITS and dst in BITS:
            if BITS[dst] >= BITS[src]:
                if src[0] == 'i' and dst[0] == 'u' and not nonneg(v): return raw('signcast', v)
                if src[0] == 'u' and dst in ('i8', 'i16', 'i32') and BITS[dst] == BITS[src]: return trunc(dst, v)
                if src[0] == 'u' and v.op != 'int': m.narrow[v] = min(BITS[src], m.narrow.get(v, 128))
                return v
            if src == 'usize' and BITS[dst] >= 32 and m.stack and (m.stack[-1].startswith('zkenc_js') or '::wasm_' in m.stack[-1]): return v   # 32-bit target
            if dst[0] == 'u' and m.narrow.get(v, 128) <= BITS[dst]: return v      # the value came from a narrower unsigned type
            if dst[0] == 'u' and v.op in ('shr', 'limb'): return TM.limb(v, I(0), BITS[dst])
            return trunc(dst, v)
        if src == 'char': return ext('charcode', v)
        ds = DISCR.get(src.split('::')[-1])
        if ds and dst in BITS:
            def num_(x):
                if x.op == 'ite': return ite(x.args[0], num_(x.args[1]), num_(x.args[2]))
                if x.op == 'var' and x.args[0].split('::')[-1] in ds: return I(ds[x.args[0].split('::')[-1]])
                return unk('discriminant')
            return num_(v)
        return v
    def e_struct(m, n, st, fr):
        d = {}
        for f in n['fields']:
            d[f[0]] = m.ev(f[1], st, fr)
        if st.dead: return BOT
        r = n['res']; path = r.get('path') or n.get('ty', '')
        ty = n.get('ty', '')
        bt = base(ty)
        if bt.startswith('std::ops::Range') or bt.startswith('core::ops::range'):
            none = raw('none')
            lo, hi = m.val(st, d.get('start', none)), m.val(st, d.get('end', none))
            if bt.endswith('RangeToInclusive'): hi = add(hi, I(1))
            return raw('rng', lo, hi)
        if 'Variant' in r.get('kind', ''):
            names = sorted(d)
            return var(STDV.get(path, path), *[d[k] for k in names])
        if n.get('base'):
            b = m.v(n['base'], st, fr)
            for k, x in d.items(): b = setfld(b, k, x)
            return b
        return adt(m.tyname(n), d)
    def tyname(m, n):
        t = head(n.get('ty', ''))
        return t.split('<')[0]
    def ctor(m, path, args):
        vn = STDV.get(path)
        if vn: return var(vn, *args)
        if path.startswith('Self:'):
            return adt(path[5:], {str(i): a for i, a in enumerate(args)})
        # tuple struct or variant
        t = m.prog.types.get(path)
        if t is not None or path.split('::')[-1][0].isupper() and not m.isvariant(path):
            if t is not None: return adt(path, {str(i): a for i, a in enumerate(args)})
        return var(path, *args)
    def isvariant(m, path): return path.rsplit('::', 1)[0] in m.prog.types

    # ---------------------------------------------------------------- calls
    def e_call(m, n, st, fr):
        f = n['f']
        if f['k'] == 'path' and f['res']['r'] == 'def':
            r = f['res']; k = r['kind']
            if k.startswith('Ctor'):
                a = [m.ev(x, st, fr) for x in n['args']]
                return m.ctor(r.get('ctor_of', r['path']), a) if not st.dead else BOT
            if k in ('Fn', 'AssocFn'):
                p = r['path']
                if p in ('alloc::fmt::format',): return m.format(n, st, fr)
                if p.startswith('anyhow') and p.endswith('__fmt'):
                    m.event(st, 'errmsg', (m.format(n, st, fr),), n.get('sp')); return S('err')
                if p == 'core::hint::must_use': return m.ev(n['args'][0], st, fr)
                if p == 'alloc::boxed::box_assume_init_into_vec_unsafe':
                    a = m.findarray(n)
                    v = m.ev(a, st, fr)
                    return seq(*[one(x) for x in v.args]) if v.op == 'arr' else v
                if p.startswith('std::io::stdio::_') : return m.printer(p, n, st, fr)
                if p == 'core::ops::try_trait::Try::branch': return m.ev(n['args'][0], st, fr)
                if 'panicking' in p or p.endswith(('::panic', '::panic_fmt', 'assert_failed', 'unreachable_display')):
                    if n['args']:
                        out = []; m.fmtargs(n, st, fr, out)
                        if out: m.event(st, 'errmsg', tuple(out), n.get('sp'))
                    m.need(st, 'panic', FALSE, n.get('sp')); st.dead = True; return BOT
                a = [m.ev(x, st, fr) for x in n['args']]
                if st.dead: return BOT
                return m.callpath(st, p, a, n, fr, r.get('subs', []), f.get('ty', ''))
        a = [m.ev(x, st, fr) for x in n['args']]
        g = m.ev(f, st, fr)
        if st.dead: return BOT
        return m.callclo(st, g, a)
    def findarray(m, n):
        if n['k'] == 'array' or n['k'] == 'repeat': return n
        for a in n.get('args', []):
            r = m.findarray(a)
            if r: return r
        return None
    def printer(m, p, n, st, fr):
        args = []
        m.fmtargs(n, st, fr, args)
        m.event(st, 'print', tuple(args), n.get('sp'))
        return UNIT
    def format(m, n, st, fr):
        args = []
        t = m.fmtargs(n, st, fr, args)
        return t
    def fmtargs(m, n, st, fr, out):
        """evaluate a format_args! expansion: the list of arguments and the resulting string term"""
        tmpl = [None]; lst = [None]
        def go(x):
            if not isinstance(x, dict): return
            k = x.get('k')
            if k == 'block':
                for s in x['b']['stmts']:
                    if s['s'] == 'let' and s.get('init') is not None:
                        if s['init'].get('k') == 'array': go(s['init'])
                        else: m.let(s, st, fr)
                    elif s['s'] != 'let': go(s['e'])
                if x['b'].get('expr'): go(x['b']['expr'])
                return
            if k == 'array' and lst[0] is None and x.get('ty', '').startswith('[core::fmt::rt::Argument'):
                l = []
                for a in x['args']:
                    if a.get('k') == 'call' and a['args']:
                        dbg = a['f']['res'].get('src', '').endswith('debug') or 'new_debug' in a['f']['res'].get('path', '')
                        sty = (a['f']['res'].get('subs') or [''])[0]
                        l.append((m.v(a['args'][0], st, fr), dbg, sty))
                lst[0] = l
                return
            if k == 'call':
                p = x['f'].get('res', {}).get('path', '') if x['f'].get('k') == 'path' else ''
                if p.startswith('core::fmt::') and x['args'] and x['args'][0].get('k') == 'lit':
                    l = x['args'][0]['lit']
                    tmpl[0] = ('str', l['v']) if l['l'] == 'str' else ('bytes', l['v'])
                    for a in x['args'][1:]: go(a)
                    return
                for a in x['args']: go(a)
                return
            if k == 'ref': go(x['a']); return
            if k == 'match' and x.get('src') == 'format': go(x['e']); [go(a['body']) for a in x['arms']]; return
            if k == 'lit' and x['lit'].get('l') == 'str' and tmpl[0] is None: tmpl[0] = ('str', x['lit']['v'])
        for a in n['args']: go(a)
        ar = lst[0] or []
        out.extend(v for v, _, _ in ar)
        if tmpl[0] is None: return unk('format')
        if tmpl[0][0] == 'str': return S(tmpl[0][1])
        b = tmpl[0][1]; i = 0; nxt = 0; parts = []
        while i < len(b):
            c = b[i]; i += 1
            if c == 0: break
            if c < 0x80: parts.append(S(bytes(b[i:i + c]).decode('utf8', 'replace'))); i += c
            elif c == 0x80:
                k = b[i] | b[i + 1] << 8; i += 2
                parts.append(S(bytes(b[i:i + k]).decode('utf8', 'replace'))); i += k
            else:
                opts = ''
                if c & 1: opts += 'f' + bytes(b[i:i + 4]).hex(); i += 4
                if c & 2: opts += 'w%d' % (b[i] | b[i + 1] << 8); i += 2
                if c & 4: opts += 'p%d' % (b[i] | b[i + 1] << 8); i += 2
                if c & 8: nxt = b[i] | b[i + 1] << 8; i += 2
                if nxt < len(ar):
                    v, dbg, sty = ar[nxt]
                    h = head(sty)
                    if opts or dbg: parts.append(raw('fmt', v, opts, 'debug' if dbg else 'display'))
                    elif h in ('str', 'std::string::String', 'char') or h.startswith('std::borrow::Cow'): parts.append(v)
                    else: parts.append(tostr(v))
                nxt += 1
        return cat(*parts)

    def e_mcall(m, n, st, fr):
        adj = n['recv'].get('adj', '') or ''
        path = n.get('path') or ''
        if n.get('self') == 'mut' or adj.endswith('M') or 'M' in adj:
            r = m.place(n['recv'], st, fr)
        else: r = m.ev(n['recv'], st, fr)
        a = [m.ev(x, st, fr) for x in n['args']]
        if st.dead: return BOT
        return m.callpath(st, path or ('?::' + n['name']), [r] + a, n, fr, n.get('subs', []), n['recv'].get('ty', ''), method=True)

    def callpath(m, st, p, a, n, fr, subs=(), fty='', method=False):
        import models
        m.called.add(p)
        for i, x in enumerate(a):
            if mixed(x):
                with_ = lambda q, y: m.callpath(q, p, a[:i] + [y] + a[i + 1:], n, fr, subs, fty, method) if y is not BOT else BOT
                return m.branch(st, x.args[0], lambda q: with_(q, x.args[1]), lambda q: with_(q, x.args[2]))
        h = models.OVERRIDE.get(p)
        if h is None:
            b = m.resolve(p, subs, fty, a)
            if b is not None and b['path'] not in m.opaque:
                if b['path'] in m.inl: return m.recursive(st, b, a)
                return m.invoke(st, m.mono(b, subs), a)
            if b is not None: return models.opaque(m, st, b['path'], a, n)
        old = [m.val(st, x) if x.op == 'ref' else None for x in a]
        v = models.call(m, st, p, a, n, fr, subs, fty, method)
        if v is not None and v.op == 'unk' and not st.dead:
            # an operation that is not modelled may have changed whatever it was given a mutable reference to
            for x, o in zip(a, old):
                if o is not None and m.val(st, x) is o: m.write(st, x, unk('mut', o))
        if not st.dead:
            for x in a:
                if x.op == 'clo' and x.args[0] not in m.ncalled: m.escape(st, x)
        return v
    def escape(m, st, f):
        """an unknown number of calls of the closure f happen: the captured places it can change become unknown"""
        node, fr = m.clos[f.args[0]]
        def root(e):
            while e.get('k') in ('field', 'index', 'un', 'ref'): e = e['a']
            return e['res']['id'] if e.get('k') == 'path' and e['res']['r'] == 'local' else None
        def go(e):
            if isinstance(e, list): [go(x) for x in e]
            elif isinstance(e, dict):
                k = e.get('k'); r = None
                if k in ('assign', 'assignop'): r = root(e['a'])
                elif k == 'ref' and e.get('mut'): r = root(e['a'])
                elif k == 'mcall' and (e.get('self') == 'mut' or 'M' in (e['recv'].get('adj', '') or '') or e['recv'].get('ty', '').startswith('&mut')): r = root(e['recv'])
                if r is not None:
                    c = fr.find(r)
                    if c is not None and c in st.store:
                        o = st.store[c]
                        if o.op == 'ref': m.write(st, o, unk('mut', m.val(st, o)))
                        else: st.store[c] = unk('mut', o)
                for x in e.values(): go(x)
        go(node['body'])
    def recursive(m, st, b, a):
        vals = [m.val(st, x) for x in a]
        k = [i for i, x in enumerate(a) if x.op == 'ref']
        rs = m.prog.recursive()
        lv = [x for x in m.inl if x in rs]
        key = 'rec%d' % (len(lv) - 1 - max(i for i, x in enumerate(lv) if x == b['path'])) if b['path'] in lv else b['name']
        if b['path'] in m.accmode:
            i = m.accmode[b['path']]
            m.write(st, a[i], seq(vals[i], raw('rec', key, tuple(x for j, x in enumerate(vals) if j != i)))); return UNIT
        for i in k: m.write(st, a[i], raw('recmut', key, i, tuple(vals)))
        return raw('rec', key, tuple(vals))
    def resolve(m, p, subs, fty, a):
        b = m.prog.fns.get(p)
        if b is not None and b['kind'] in ('Fn', 'AssocFn') and b.get('body'): 
            if b.get('exp') : return None
            return b
        # trait method of a local type
        last = p.split('::')[-1]
        if p.startswith(('core::', 'alloc::', 'std::')): 
            if last in ('clone', 'fmt', 'eq', 'serialize', 'deserialize', 'into_iter', 'next', 'to_string', 'drop', 'hash'): return None
        CONVS = {'core::convert::From::from': (0, 1, 'from'), 'core::convert::Into::into': (1, 0, 'from'), 'core::convert::TryFrom::try_from': (0, 1, 'try_from'), 'core::convert::TryInto::try_into': (1, 0, 'try_from')}
        if p in CONVS and len(subs) == 2:
            i, j, nm = CONVS[p]; to, src = base(subs[i]), norm_ty(subs[j])
            for q, b in m.prog.fns.items():
                if b['name'] == nm and b.get('impl_trait') and b.get('body') and not b.get('exp') and base(b.get('impl_self', '')) == to and b['params'] and norm_ty(b['params'][0]['ty']) == src: return b
            return None
        t = head(subs[0]) if subs else head(fty)
        t = t.split('<')[0]
        if t.startswith('zk') or '::' in t:
            for q, b in m.prog.fns.items():
                if b['name'] == last and b.get('impl_self', '').split('<')[0] == t and b.get('impl_trait') and b.get('body') and not b.get('exp'): return b
        return None

def inv(t):
    return raw('inv', t)
def udiv(a, b):
    x, y = cst(a), cst(b)
    if x is not None and y: return I(x // y)
    if y == 1: return a
    if y and a.op == 'poly' and all(c % y == 0 for _, c in a.args): return mkpoly({mm: c // y for mm, c in a.args})
    return raw('udiv', a, b)
def urem(a, b):
    x, y = cst(a), cst(b)
    if x is not None and y: return I(x % y)
    return raw('urem', a, b)
def band(a, b):
    x, y = cst(a), cst(b)
    if x is not None and y is not None: return I(x & y)
    return raw('band', *sorted((a, b), key=lambda t: t.id))
