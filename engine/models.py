"""Summaries of the external functions the repository calls (std, anyhow, aead, arkworks, serde ...).

A call with no summary becomes an uninterpreted term (`ext`) when it is a pure call of a third-party crate and
`unk` (which makes every comparison it reaches undecided) when it is a std function the analysis does not know.
"""
import re
from terms import *
from machine import *

OVERRIDE = {}

def head(ty):
    import rust
    return rust.head(ty)

IDENT = set('''clone to_vec as_ref as_slice as_mut_slice iter into_iter copied cloned into as_bytes to_owned as_str deref deref_mut as_deref
into_affine into_group into_boxed_slice into_vec borrow as_mut by_ref peekable fuse into_iter_sorted bytes into_bytes to_path_buf as_path
as_mut_str into_string from_iter into_boxed_str as_encoded_bytes as_array into_inner get_ref from_slice_unchecked into_bigint_id into_owned
as_mut_ptr black_box into_parts_id to_bytes_id must_use buf_reader'''.split())

def okv(c, v): return ite(c, Ok(v), Err())
def somev(c, v): return ite(c, Some(v), NONE)

def isopt_t(t): return head(t).startswith(('std::option::Option', 'core::option::Option'))
def isres_t(t): return head(t).startswith(('std::result::Result', 'core::result::Result'))
def ismap_t(t): return any(x in head(t).split('<')[0] for x in ('HashMap', 'BTreeMap', 'serde_json::Map', 'IndexMap'))
def isset_t(t): return any(x in head(t).split('<')[0] for x in ('HashSet', 'BTreeSet'))
def isstr_t(t): return head(t) in ('str', 'std::string::String') or head(t).startswith('std::borrow::Cow<')

def opaque(m, st, path, a, n):
    vals = [m.val(st, x) for x in a]
    short = '::'.join(path.split('::')[-1:])
    for i, x in enumerate(a):
        if x.op == 'ref': m.write(st, x, ext('after:' + short, I(i), *vals))
    return ext('call:' + short, *vals)

def acc(m, st, s, body):
    """sequence of body(state, elem) -> list of segments, over s"""
    m.fresh += 1
    cell = ('t', m.fresh); st.store[cell] = EMPTY
    fr = Frame(None)
    def go(q, e):
        r = body(q, e)
        if not q.dead: q.store[cell] = seq(q.store[cell], *r)
        return UNIT
    m.foreach(st, fr, s, go)
    return st.store.get(cell, EMPTY)

def oseq(t):
    """an Option (or a sequence) as a segment"""
    if t.op == 'var' or t.op == 'isv': 
        if t is NONE: return EMPTY
        if t.args[0] == 'Some': return seq(one(t.args[1][0]))
    return None

def asseq(m, t, ty=''):
    if t.op == 'var' and t.args[0] in ('Some', 'None'): return oseq(t)
    if t.op == 'rng':
        lo = t.args[0]
        if t.args[1].op == 'none': return None
        n = sub(t.args[1], lo)
        if not nonneg(n) :
            n = mnt_pos(n)
        bv = sym('i', True)
        return raw('seq', raw('G', bv, n, raw('seq', one(add(lo, bv))))) if cst(n) != 0 else EMPTY
    if t.op == 'ite':
        a, b = asseq(m, t.args[1], ty), asseq(m, t.args[2], ty)
        if a is None or b is None: return None
        if isopt_t(ty) or a.op == 'seq' and b.op == 'seq': return site(t.args[0], a, b)
        return ite(t.args[0], a, b)
    if isopt_t(ty): return site(isv(t, 'Some'), seq(one(pl(t, 'Some', 0))), EMPTY)
    if isres_t(ty): return site(isv(t, 'Ok'), seq(one(pl(t, 'Ok', 0))), EMPTY)
    if ismap_t(ty) or t.op == 'map': return ext('entries', t)
    return t

def view1(m, st, s):
    v = m.view(s) if s.op != 'ite' else None
    if v is None:
        bv = sym('i', True)
        return bv, ln(s), TRUE, idx(s, bv)
    return v

def search(m, st, s, f, ty):
    """(found, index, element) of the first element satisfying f"""
    bv, n, c, e = view1(m, st, s)
    q = st.fork(c)
    cond = and_(c, m.callclo(q, f, [e])) if c is not FALSE else FALSE
    found = not_(all_(bv, n, not_(cond)))
    k = brkn(bv, n, cond)
    return found, k, subst(e, {bv: k}), c

def arrlen(ty):
    mm = re.search(r';\s*(\d+)(?:_?usize)?\]', ty or '')
    return int(mm.group(1)) if mm else None

def tysize(ty):
    return BITS.get(head(ty), 0) // 8 or None

def rnd(m, size, src, what=''):
    m.rndc = getattr(m, 'rndc', 0) + 1
    return raw('rnd', m.rndc, size if isinstance(size, T) else S(str(size)), src, S(what))

def rdr(F, pos): return adt('rdr', {'F': F, 'pos': pos})

def rngsrc(m, st, v):
    v = m.val(st, v)
    if v.op == 'var': return S(v.args[0].split('::')[-1])
    if v.op == 'adt' and not v.args[1]: return S(v.args[0].split('::')[-1])
    return v

def mutit(st, m, r):
    """(n, element-reference) of an iteration by mutable reference"""
    pass

def call(m, st, p, a, n, fr, subs, fty, method):
    name = p.split('::')[-1]
    ty = n.get('ty', '')
    aty = fty if method else (n['args'][0].get('ty', '') if n.get('args') else '')
    V = [m.val(st, x) for x in a]
    x = V[0] if V else None
    crate = p.split('::')[0]
    sp = n.get('sp')
    std = crate in ('core', 'alloc', 'std')
    selfty = subs[0] if subs else ''
    C = lambda f, *xs: m.callclo(st, f, list(xs))

    # ---------------- process-wide mutable state: what it holds depends on the history of calls
    if x is not None and x.op == 'ext' and x.args[0] == 'static':
        if name in ('get_or_init', 'get_or_try_init', 'call_once', 'force') and len(a) > 1:
            v = m.callclo(st, a[1], [])
            if not any(y.op in ('rnd', 'arg', 'unk', 'sym') for y in walk(v)): return v
        if name in ('with', 'with_borrow', 'with_borrow_mut') and len(a) > 1:
            m.fresh += 1; cell = ('t', m.fresh); st.store[cell] = ext('state', x.args[1], S('cell'))
            return m.callclo(st, a[1], [raw('ref', cell, ())])
        if name in ('store', 'set') and len(V) == 2 or name == 'call_once': return UNIT if not isres_t(ty) else okv(ext('state', x.args[1], S(name)), UNIT)
        v = ext('state', x.args[1], S(name))
        return Ok(v) if name in ('lock', 'write', 'read') and isres_t(ty) else v
    # ---------------- mutable iteration
    if name in ('iter_mut', 'values_mut') and a and a[0].op == 'ref':
        return raw('mutit', a[0].args[0], a[0].args[1], ln(x))
    if x is not None and x.op in ('mutit', 'mutenum', 'mutzip'):
        if name == 'enumerate': return raw('mutenum', x)
        if name == 'zip': return raw('mutzip', x, asseq(m, V[1]))
        if name in ('into_iter', 'by_ref'): return x
        if name == 'take' and x.op == 'mutit': return raw('mutit', x.args[0], x.args[1], mnt(x.args[2], V[1]))
        if name == 'for_each':
            m.foreach(st, Frame(None), x, lambda q, e: m.callclo(q, a[1], [e])); return UNIT
        return unk(name)
    if name == 'zip' and len(V) > 1 and V[1].op == 'mutit': return raw('mutzipr', V[1], asseq(m, x, aty))

    # ---------------- identity-like
    if name == 'into_iter' or name == 'iter' and std or name == 'drain' and std:
        if name == 'drain' and len(V) > 1:
            if V[1].op != 'rng' or a[0].op != 'ref': return unk('drain')
            lo, hi = V[1].args; lo = I(0) if lo.op == 'none' else lo; hi = ln(x) if hi.op == 'none' else hi
            m.need(st, 'slice', and_(ge(hi, lo), ge(ln(x), hi)), sp)
            m.write(st, a[0], seq(sl(x, I(0), lo), sl(x, hi, ln(x)))); return sl(x, lo, hi)
        if name == 'drain' and a[0].op == 'ref': m.write(st, a[0], EMPTY)
        if std:
            s = asseq(m, x, aty)
            return s if s is not None else x
        if ismap_t(aty): return ext('entries', x)
        return x
    if name == 'collect' : return collect(m, st, x, ty, sp)
    if name == 'from_iter': return collect(m, st, asseq(m, x, aty), ty, sp)
    if name in ('keys', 'values', 'into_keys', 'into_values') and ismap_t(aty):
        e = ext('entries', x); bv = sym('i', True)
        return G(bv, ln(e), seq(one(fld(idx(e, bv), '0' if 'key' in name else '1'))))
    if name in ('iter', 'into_iter') and len(V) == 1 and ismap_t(aty): return ext('entries', x)
    if name in IDENT and (len(V) == 1) and not (name in ('as_array', 'as_str') and head(aty).endswith('Value')) and not (name in ('as_mut', 'as_ref') and False):
        if name == 'as_mut' and a[0].op == 'ref':
            if isopt_t(aty): return ite(isv(x, 'Some'), Some(raw('ref', a[0].args[0], a[0].args[1] + (('pl', 'Some', 0),))), NONE)
            return a[0]
        if name in ('deref_mut', 'as_mut_slice', 'borrow_mut', 'by_ref') and a[0].op == 'ref': return a[0]
        if name == 'into' and ('signcast' == '' ): pass
        return conv(m, st, x, aty, ty, subs) if name == 'into' else x
    if name in ('from', 'into') and len(V) == 1: return conv(m, st, x, aty, ty, subs)
    if p in ('core::mem::drop', 'core::mem::forget') : return UNIT
    if name in ('flush', 'sync_all', 'sync_data', 'into_inner') and x is not None and x.op == 'wfile':
        done = ext('wrote', x.args[0], x.args[1]) if len(x.args) > 3 and x.args[1] is not EMPTY else Ok(UNIT)
        return okv(isv(done, 'Ok'), raw('wfile', *x.args[:3])) if name == 'into_inner' else done
    if name in ('reserve', 'shrink_to_fit', 'flush', 'sync_all', 'set_once', 'reserve_exact') and (std or crate == 'console_error_panic_hook'):
        return Ok(UNIT) if isres_t(ty) else UNIT
    if p == 'core::mem::take' and a[0].op == 'ref':
        z = default(ty); m.write(st, a[0], z); return x
    if p == 'core::mem::replace' and a[0].op == 'ref': m.write(st, a[0], V[1]); return x
    if p == 'core::mem::swap' and a[0].op == 'ref' and a[1].op == 'ref':
        m.write(st, a[0], V[1]); m.write(st, a[1], x); return UNIT
    if p.startswith('core::mem::size_of'): return I(tysize(selfty) or 0) if tysize(selfty) else unk('size_of')
    if 'bufwriter' in p and name in ('new', 'with_capacity') and V[-1].op == 'wfile': return raw('wfile', *V[-1].args[:3], TRUE)
    if name in ('new', 'pin') and '::boxed::' in p or (name == 'new' and any(k in p for k in ('sync::', 'rc::', 'bufreader', 'bufwriter', 'cell::'))): 
        return x
    if name == 'with_capacity' and any(k in p for k in ('bufreader', 'bufwriter')): return V[1]
    if p.startswith('core::fmt::'): return S('fmt')
    if p.startswith('anyhow') and name in ('__fmt', 'msg', 'new') or name in ('custom', 'to_string_err'):
        m.event(st, 'errmsg', tuple(V), sp); return S('err')
    if name == 'default' and not V: return default(ty)
    # ---------------- vec / string / map construction
    if name in ('new', 'with_capacity') and std and len(V) <= 1:
        if 'vec' in p or 'deque' in p: 
            return EMPTY
        if 'string' in p: return S('')
        if 'map' in p: return mapt(EMPTY)
        if 'set' in p: return raw('map', EMPTY)
        if name == 'with_capacity' and 'hash' in p: return mapt(EMPTY)
    if name == 'new' and 'cursor' in p.lower(): return rdr(x, I(0))
    if name == 'new' and 'ops::range' in p: return raw('rng', V[0], add(V[1], I(1)))
    if name == 'new' and p.startswith('std::collections::hash'): return mapt(EMPTY)
    if name == 'new' and p.startswith('serde_json::map'): return mapt(EMPTY)
    if name == 'from_elem': return rep(V[0], V[1])
    if name == 'from_fn' and 'array' in p:
        k = arrlen(ty)
        if k is not None and k <= 64: return arr(*[m.callclo(st, a[0], [I(i)]) for i in range(k)])
    if name == 'repeat' and 'iter' in p: return rep(x, raw('inf'))
    if name == 'once' and 'iter' in p: return seq(one(x))
    if name == 'empty' and 'iter' in p: return EMPTY

    # ---------------- Result / Option
    if x is not None and (isopt_t(aty) or isres_t(aty)):
        r = optres(m, st, name, p, a, V, x, aty, ty, sp)
        if r is not None: return r
    if name == 'then' and head(aty) == 'bool': return m.branch(st, x, lambda q: Some(m.callclo(q, a[1], [])), lambda q: NONE)
    if name == 'then_some' and head(aty) == 'bool': return somev(x, V[1])

    # ---------------- maps
    if x is not None and (ismap_t(aty) or isset_t(aty)):
        g = mget(x, V[1]) if len(V) > 1 else None
        if name in ('get', 'get_key_value') : return g
        if name in ('contains_key', 'contains'): return isv(g, 'Some')
        if name == 'insert':
            if a[0].op == 'ref': m.write(st, a[0], minsert(x, V[1], V[2] if len(V) > 2 else UNIT))
            return g if ismap_t(aty) else not_(isv(g, 'Some'))
        if name == 'len': return raw('len', x) if not (x.op == 'map' and x.args[0] is EMPTY) else I(0)
        if name == 'is_empty': return eq(raw('len', x), I(0))
        if name == 'get_mut' and a[0].op == 'ref':
            return ite(isv(g, 'Some'), Some(raw('ref', a[0].args[0], a[0].args[1] + (('get', V[1]),))), NONE)
        if name == 'remove' and a[0].op == 'ref':
            m.write(st, a[0], ext('map.remove', x, V[1])); return g
        if name == 'extend' and a[0].op == 'ref':
            s = asseq(m, V[1], n['args'][0].get('ty', '') if n.get('args') else '')
            m.write(st, a[0], mapt(seq(logof(x), s))); return UNIT
        if name == 'entry' and a[0].op == 'ref': return adt('entry', {'m': a[0], 'k': V[1]})
        if name == 'retain' and a[0].op == 'ref' and ismap_t(aty):
            m.write(st, a[0], mapt(acc(m, st, asseq(m, x, aty), lambda q, e: [site(m.callclo(q, a[1], [fld(e, '0'), fld(e, '1')]), seq(one(e)), EMPTY)]))); return UNIT
        if name == 'clear' and a[0].op == 'ref': m.write(st, a[0], mapt(EMPTY)); return UNIT
        return unk('map.' + name, x)
    if x is not None and x.op == 'adt' and x.args[0] == 'entry':
        r, k = fld(x, 'm'), fld(x, 'k')
        if name in ('or_insert', 'or_insert_with', 'or_default'):
            mp = m.read(st, r); g = mget(mp, k)
            v = V[1] if name == 'or_insert' else m.callclo(st, a[1], []) if name == 'or_insert_with' else default(ty)
            m.write(st, r, mp if isv(g, 'Some') is TRUE else ite(isv(g, 'Some'), mp, minsert(mp, k, v)))
            return raw('ref', r.args[0], r.args[1] + (('get', k),))
        return unk('entry')

    # ---------------- readers, files, effects
    r = io(m, st, name, p, a, V, x, aty, ty, n, subs)
    if r is not None: return r
    # ---------------- crypto, randomness, arkworks, serde
    r = crypto(m, st, name, p, a, V, x, aty, ty, n, subs, crate)
    if r is not None: return r
    if p.startswith(('std::path::', 'std::sys::path')) or 'path::' in p and std:
        if name in ('new', 'from', 'as_os_str', 'to_owned', 'to_string_lossy', 'display', 'as_path', 'to_path_buf', 'into_os_string'): return x
        if name == 'to_str': return somev(ext('utf8', x), x)
        if name == 'join': return ext('path.join', *V)
        return ext('path.' + name, *V)
    # ---------------- integers
    if std and ('num::' in p or p.startswith('core::cmp') or p.startswith('core::num')) or name in ('try_from', 'try_into', 'from_le_bytes', 'from_be_bytes', 'to_le_bytes', 'to_be_bytes', 'min', 'max'):
        r = ints(m, st, name, p, a, V, x, aty, ty, n, subs)
        if r is not None: return r
    # ---------------- sequences
    if std:
        r = strings(m, st, name, p, a, V, x, aty, ty, n, subs)
        if r is not None: return r
        r = seqs(m, st, name, p, a, V, x, aty, ty, n, subs)
        if r is not None: return r
    if not std:
        for i, y in enumerate(a):
            if y.op == 'ref' and isplace(n, i, method): m.write(st, y, ext('mut:' + name, I(i), *V))
        return ext(name, *V)
    if p.startswith(('std::time::', 'core::time::')): return ext('time:' + name, *V)
    if name == 'kind' and 'io::error' in p: return ext('errkind', x)
    if name == 'eq_ignore_ascii_case': return eq(V[0], V[1]) if V[0] is V[1] else ext('eqnocase', *V)
    if name.startswith('is_ascii') or name in ('is_alphanumeric', 'is_alphabetic', 'is_numeric', 'is_whitespace', 'is_digit', 'is_uppercase', 'is_lowercase', 'is_control'): return ext('char.' + name, *V)
    if name in ('borrow_mut', 'borrow', 'lock', 'get_mut') and ('cell::' in p or 'sync::' in p) and a[0].op == 'ref': return Ok(a[0]) if isres_t(ty) else a[0]
    m.unmodelled[p] = m.unmodelled.get(p, 0) + 1
    for y in a:
        if y.op == 'ref': m.write(st, y, unk('mut', S(p)))
    return unk('call', S(p), *V)

def isplace(n, i, method):
    return True

def default(ty):
    t = head(ty)
    if t in BITS: return I(0)
    if t == 'bool': return FALSE
    if isstr_t(t): return S('')
    if ismap_t(t): return mapt(EMPTY)
    if isopt_t(t): return NONE
    if t.startswith(('std::vec::Vec', '[')):
        k = arrlen(t)
        return rep(I(0), I(k)) if k is not None else EMPTY
    import rust
    d = rust.DERIVED.get(t)
    if d is not None: return raw('adt', t, tuple((n, default(x)) for n, x in d))
    return ext('default', S(t))

def unpad(x):
    """the bytes of a little-endian number without leading zeros of known position"""
    z = lambda t: t.op == 'rep' and t.args[0] is I(0)
    if z(x): return EMPTY
    if x.op == 'wr' and z(x.args[0]) and len(x.args[1]) == 1 and cst(x.args[1][0][0]) == 0: return x.args[1][0][1]
    while x.op == 'seq' and x.args:
        g = x.args[-1]
        if not (z(g) or g.op == 'one' and g.args[0] is I(0) or g.op == 'G' and g.args[2].op == 'seq' and all(y.op == 'one' and y.args[0] is I(0) for y in g.args[2].args)): break
        x = seq(*x.args[:-1])
    return x
def conv(m, st, x, aty, ty, subs):
    s, d = head(aty), head(ty)
    if s == 'bool' and d in BITS: return ite(x, I(1), I(0))
    if s in BITS and d in BITS: return x
    if ismap_t(d) and not ismap_t(s):
        q = asseq(m, x, aty)
        if q is not None: return mapt(q if q.op == 'seq' else seq(q))
    if d.endswith('serde_json::Value') and not s.endswith('Value'): return ext('json', x)
    return x

def collect(m, st, x, ty, sp=None):
    t = head(ty)
    s = asseq(m, x)
    if s is None: return unk('collect')
    if isres_t(t) or isopt_t(t):
        good = 'Ok' if isres_t(t) else 'Some'
        v = m.view(s) if s.op != 'ite' else None
        if v is None: 
            bv, n, c, e = sym('i', True), ln(s), TRUE, None
            e = idx(s, bv)
        else: bv, n, c, e = v
        cond = all_(bv, n, or_(not_(c), isv(e, good)))
        pv = assume(pl(e, good, 0), conj(isv(e, good)))
        inner = G(bv, n, seq(one(pv)) if c is TRUE else site(c, seq(one(pv)), EMPTY))
        it = re.sub(r'^[^<]*<', '', t)
        if ismap_t(it): inner = mapt(inner)
        elif it.startswith('()'): inner = UNIT
        return ite(cond, Ok(inner) if good == 'Ok' else Some(inner), Err(raw('looperr')) if good == 'Ok' else NONE)
    if ismap_t(t) or isset_t(t):
        if isset_t(t): return raw('map', acc(m, st, s, lambda q, e: [one(tup(e, UNIT))]))
        return mapt(s) if s.op == 'seq' else mapt(seq(s))
    if isstr_t(t): return ext('concat', s) if not s.op == 'ext' else ext('concat', s)
    return s

def optres(m, st, name, p, a, V, x, aty, ty, sp):
    opt = isopt_t(aty)
    good, bad = ('Some', 'None') if opt else ('Ok', 'Err')
    ok = isv(x, good); v = pl(x, good, 0)
    badv = NONE if opt else Err()
    wrap = (lambda z: Some(z)) if opt else (lambda z: Ok(z))
    if name in ('context', 'with_context', 'ok_or', 'ok_or_else', 'map_err', 'inspect_err'):
        def fails(q):
            if q.dead: return Err()
            e = m.callclo(q, a[1], [] if name in ('with_context', 'ok_or_else') else [pl(x, 'Err', 0)]) if name in ('with_context', 'ok_or_else', 'map_err', 'inspect_err') else V[1]
            m.event(q, 'errmsg', (m.val(q, e),), sp)
            return Err()
        m.branch(st, ok, lambda q: UNIT, fails)
        return okv(ok, v)
    if name == 'ok': return somev(ok, v)
    if name == 'err': return somev(not_(ok), pl(x, 'Err', 0))
    if name == 'map': return m.branch(st, ok, lambda q: wrap(m.callclo(q, a[1], [v])), lambda q: badv)
    if name == 'and_then': return m.branch(st, ok, lambda q: m.callclo(q, a[1], [v]), lambda q: badv)
    if name == 'or_else': return m.branch(st, ok, lambda q: x, lambda q: m.callclo(q, a[1], [] if opt else [pl(x, 'Err', 0)]))
    if name == 'or': return ite(ok, x, V[1])
    if name == 'filter': return m.branch(st, ok, lambda q: somev(m.callclo(q, a[1], [v]), v), lambda q: NONE)
    if name in ('unwrap', 'expect'):
        if name == 'expect' and V[1].op != 'str': m.event(st, 'errmsg', (V[1],), sp)
        m.need(st, 'unwrap', ok, sp); st.know(ok); return v if not st.dead else BOT
    if name in ('unwrap_err', 'expect_err'):
        m.need(st, 'unwrap', not_(ok), sp); return pl(x, 'Err', 0)
    if name == 'unwrap_or': return ite(ok, v, V[1])
    if name == 'unwrap_or_else': return m.branch(st, ok, lambda q: v, lambda q: m.callclo(q, a[1], [] if opt else [pl(x, 'Err', 0)]))
    if name == 'unwrap_or_default': return ite(ok, v, default(ty))
    if name == 'map_or': return m.branch(st, ok, lambda q: m.callclo(q, a[2], [v]), lambda q: V[1])
    if name == 'map_or_else': return m.branch(st, ok, lambda q: m.callclo(q, a[2], [v]), lambda q: m.callclo(q, a[1], [] if opt else [pl(x, 'Err', 0)]))
    if name in ('is_some', 'is_ok'): return ok
    if name in ('is_none', 'is_err'): return not_(ok)
    if name in ('is_some_and', 'is_ok_and'): return m.branch(st, ok, lambda q: m.callclo(q, a[1], [v]), lambda q: FALSE)
    if name in ('is_none_or',): return m.branch(st, ok, lambda q: m.callclo(q, a[1], [v]), lambda q: TRUE)
    if name == 'transpose':
        if opt: return ite(ok, ite(isv(v, 'Ok'), Ok(Some(pl(v, 'Ok', 0))), Err()), Ok(NONE))
        return unk('transpose')
    if name == 'flatten': return ite(ok, v, badv)
    if name in ('copied', 'cloned', 'as_ref', 'as_deref', 'inspect', 'clone'): return x
    if name == 'take' and a[0].op == 'ref': m.write(st, a[0], NONE); return x
    if name in ('insert', 'replace') and a[0].op == 'ref': m.write(st, a[0], Some(V[1])); return x if name == 'replace' else a[0]
    if name in ('get_or_insert', 'get_or_insert_with') and a[0].op == 'ref':
        n = m.branch(st, ok, lambda q: x, lambda q: Some(V[1] if name == 'get_or_insert' else m.callclo(q, a[1], [])))
        m.write(st, a[0], n); return raw('ref', a[0].args[0], a[0].args[1] + (('pl', good, 0),))
    if name == 'zip' and opt: return somev(and_(ok, isv(V[1], 'Some')), tup(v, pl(V[1], 'Some', 0)))
    if name in ('iter', 'into_iter'): return asseq(m, x, aty)
    if name in ('eq', 'ne'): 
        e = m.eqv(x, V[1]); return e if name == 'eq' else not_(e)
    if name == 'as_mut' and a[0].op == 'ref': return ite(ok, wrap(raw('ref', a[0].args[0], a[0].args[1] + (('pl', good, 0),))), badv)
    return None

def ints(m, st, name, p, a, V, x, aty, ty, n, subs):
    sp = n.get('sp')
    if name == 'swap_bytes' and x.op == 'num' and tysize(aty) == x.args[1]: return num('be' if x.args[0] == 'le' else 'le', x.args[1], x.args[2])
    if name in ('swap_bytes', 'reverse_bits', 'rotate_left', 'rotate_right'): return ext('int.' + name, S(head(aty)), *V)
    if name in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
        k = tysize(ty)
        if k is None: return None
        t = num('be' if '_be' in name else 'le', k, x)
        if head(ty)[0] == 'i' and cst(t) is None: return raw('signed', I(8 * k), t)
        return t
    if name in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
        k = tysize(aty)
        return enc('be' if '_be' in name else 'le', k, x) if k else None
    if name in ('try_into', 'try_from'):
        t = re.sub(r'^[^<]*<', '', head(ty))
        k = arrlen(t) if t.startswith(('[', '&[')) else None
        if k is not None: return okv(eq(ln(x), I(k)), x)
        d = t.split(',')[0].strip()
        if d in BITS:
            src = head(aty)
            lo = 0 if d[0] == 'u' else -(1 << BITS[d] - 1); hi = (1 << BITS[d]) - 1 if d[0] == 'u' else (1 << BITS[d] - 1) - 1
            cs = []
            if src in BITS:
                slo = 0 if src[0] == 'u' else -(1 << BITS[src] - 1); shi = (1 << BITS[src]) - 1 if src[0] == 'u' else (1 << BITS[src] - 1) - 1
            else: slo, shi = -1 << 200, 1 << 200
            if slo < lo: cs.append(ge(x, I(lo)))
            if shi > hi: cs.append(le(x, I(hi)))
            return okv(and_(*cs), x)
        return None
    if name == 'min' and len(V) == 2: return mnt(x, V[1])
    if name == 'max' and len(V) == 2:
        if cst(V[1]) == 0 or cst(x) == 0: 
            z = V[1] if cst(x) == 0 else x
            return mnt_pos(z)
        return neg(mnt(neg(x), neg(V[1])))
    if name in ('checked_add', 'checked_sub', 'checked_mul'):
        v = {'add': add, 'sub': sub, 'mul': mul}[name[8:]](x, V[1])
        t = head(aty)
        if name == 'checked_sub' and t[:1] == 'u': return somev(ge(x, V[1]), v)
        c = ovf(t, v)
        return somev(c, v)
    if name in ('saturating_sub',) and head(aty)[:1] == 'u': return ite(ge(x, V[1]), sub(x, V[1]), I(0))
    if name in ('saturating_add', 'saturating_mul'):
        v = add(x, V[1]) if 'add' in name else mul(x, V[1])
        t = head(aty); return ite(ovf(t, v), v, I((1 << BITS.get(t, 64)) - 1))
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        v = {'add': add, 'sub': sub, 'mul': mul}[name[9:]](x, V[1]); return raw('wrap', S(head(aty)), v)
    if name == 'checked_div': 
        import rust
        return somev(not_(eq(V[1], I(0))), rust.udiv(x, V[1]))
    if name == 'div_ceil':
        import rust
        return rust.udiv(add(x, V[1], I(-1)), V[1])
    if name == 'is_multiple_of':
        import rust
        return eq(rust.urem(x, V[1]), I(0))
    if name == 'pow' and cst(V[1]) is not None and cst(V[1]) < 8:
        r = I(1)
        for _ in range(cst(V[1])): r = mul(r, x)
        return r
    if name == 'abs': return ite(ge(x, I(0)), x, neg(x))
    if name == 'unsigned_abs': return ite(ge(x, I(0)), x, neg(x))
    if name in ('is_negative',): return lt(x, I(0))
    if name in ('is_positive',): return gt(x, I(0))
    if name in ('cmp', 'partial_cmp', 'total_cmp'): return ext('cmp', x, V[1])
    if name == 'eq': return m.eqv(x, V[1])
    if name == 'ne': return not_(m.eqv(x, V[1]))
    if name in ('lt', 'le', 'gt', 'ge'): return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[name](x, V[1])
    if name in ('next_power_of_two', 'leading_zeros', 'trailing_zeros', 'count_ones', 'is_power_of_two', 'ilog2'): return ext(name, x)
    if name == 'from_str' and 'num' in p: return ext('parse', S(parsety(ty)), x)
    if name in ('clamp',): return mnt(neg(mnt(neg(x), neg(V[1]))), V[2])
    if name in ('from_str_radix',): return ext(name, *V, S(head(ty)))
    return None

def ovf(t, v):
    return raw('fits', S(t), v) if cst(v) is None else B(0 <= cst(v) < 1 << BITS.get(t, 64))

NUMTY = re.compile(r'^([iu](8|16|32|64|128|size)|f32|f64|bool|char)$')
def parsety(ty):
    t = head(ty)
    t = re.sub(r'^[\w:]*Result<', '', t)
    return t.split(',')[0].strip().rstrip('>')

def strings(m, st, name, p, a, V, x, aty, ty, n, subs):
    if x is None: return None
    sp = n.get('sp')
    if name == 'to_string':
        h = head(aty)
        if isstr_t(h) or h in ('char',): return x
        if x.op == 'str': return x
        if h == 'serde_json::Value':
            V_ = 'serde_json::Value::'
            return ite(isv(x, V_ + 'Number'), tostr(pl(x, V_ + 'Number', 0)), ite(isv(x, V_ + 'Bool'), tostr(pl(x, V_ + 'Bool', 0)), ite(isv(x, V_ + 'Null'), S('null'), ext('json_text', x))))
        return tostr(x)
    if name == 'parse' and 'str' in p or name == 'from_str':
        t = subs[-1] if subs and name == 'parse' else parsety(ty)
        if t == 'serde_json::Value': return okv(ext('json_ok', S('Value'), x), ext('json_val', S('Value'), x))
        if not NUMTY.match(t): return unk(name)
        return ext('parse', S(t), x)
    if not (isstr_t(aty) or 'str::' in p or 'string::' in p): return None
    if name == 'trim_end' and x.op == 'ext' and x.args[0] == 'trim_start' or name == 'trim_start' and x.op == 'ext' and x.args[0] == 'trim_end': return ext('trim', x.args[1])
    if name == 'trim': 
        if x.op == 'ext' and x.args[0] == 'trim': return x
        return ext('trim', x)
    if name in ('is_empty',): return eq(ln(x), I(0))
    if name == 'len': return ln(x)
    if name == 'starts_with' and V[1].op != 'clo': return ext('starts_with', x, V[1]) if V[1].op != 'clo' else unk('closure-pattern')
    if name == 'ends_with' and V[1].op != 'clo': return ext('ends_with', x, V[1]) if V[1].op != 'clo' else unk('closure-pattern')
    if len(V) > 1 and V[-1].op in ('seq', 'arr') and name in PATTERN:
        ch = V[-1].args if V[-1].op == 'arr' else [y.args[0] if y.op == 'one' else None for y in V[-1].args]
        if not ch or any(y is None or y.op != 'str' for y in ch): return unk('pattern')
        i = sym('c', True)
        pat = ch[0] if len(ch) == 1 else ext('charset', G(i, I(1 << 20), seq(one(or_(*[eq(i, y) for y in ch])))))
        V = V[:-1] + [pat]; a = a[:-1] + [pat]
    if name == 'strip_prefix': return somev(ext('starts_with', x, V[1]), sl(x, ln(V[1]), ln(x)))
    if name == 'strip_suffix': return somev(ext('ends_with', x, V[1]), sl(x, I(0), sub(ln(x), ln(V[1]))))
    if name in ('eq', 'ne'):
        e = m.eqv(x, V[1]); return e if name == 'eq' else not_(e)
    if name in ('push_str', 'push', 'write_str') and a[0].op == 'ref': m.write(st, a[0], cat(x, V[1])); return Ok(UNIT) if name == 'write_str' else UNIT
    if name == 'write_fmt' and a[0].op == 'ref':
        m.write(st, a[0], cat(x, V[1])); return Ok(UNIT)
    if name == 'clear' and a[0].op == 'ref': m.write(st, a[0], S('')); return UNIT
    if name == 'from_utf8': return okv(ext('utf8', x), x)
    if name == 'from_utf8_lossy': return ext('lossy', x)
    if name == 'add': return cat(x, V[1])
    if name == 'get' and V[1].op == 'rng': return None
    if name in ('split_once',):
        b = ext('split', x, V[1])
        TM.RESTS.add(V[1])
        return somev(ext('contains', x, V[1]), tup(idx(b, I(0)), ext('rest', x, V[1])))
    if name in ('split', 'split_terminator', 'splitn', 'rsplit', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'contains', 'starts_with', 'ends_with') and V[-1].op in ('clo', 'fn'):
        pat = charset(m, st, a[-1])
        if pat is None: return unk('closure-pattern')
        V = V[:-1] + [pat]; a = a[:-1] + [pat]
        if name == 'starts_with': return and_(ge(ln(x), I(1)), ext('starts_with', x, pat))
        if name == 'contains': return ext('contains', x, pat)
        if pat.op == 'ext' and pat.args[0] == 'charset' and name.startswith('trim'):
            f = pat.args[1].args[0].args[2] if pat.args[1].op == 'seq' else None
            f = f.args[0].args[0] if f is not None and f.op == 'seq' and len(f.args) == 1 and f.args[0].op == 'one' else None
            if f is not None and f.op == 'ext' and f.args[0] == 'char.is_whitespace': return strings(m, st, name.replace('_matches', '') if name != 'trim_matches' else 'trim', p, [x], [x], x, aty, ty, n, subs)
    if name in ('lines', 'split', 'splitn', 'rsplit', 'split_whitespace', 'chars', 'char_indices', 'trim_start', 'trim_end', 'trim_matches', 'trim_end_matches', 'trim_start_matches', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'replace', 'contains', 'find', 'rfind', 'repeat', 'eq_ignore_ascii_case', 'is_ascii', 'split_terminator', 'rsplitn', 'replacen', 'matches', 'is_char_boundary', 'encode_utf16', 'rsplit_once', 'split_at', 'join', 'concat'):
        if any(v.op == 'clo' for v in V): return unk('closure-pattern')
        if name in ('trim_matches', 'trim_start_matches'): return ext(name, *V)
        return ext(name, *V)
    return None

PATTERN = ('split', 'split_terminator', 'splitn', 'rsplit', 'rsplitn', 'split_once', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'contains', 'find', 'replace', 'strip_prefix', 'strip_suffix')
def charset(m, st, clo):
    """a pattern that is a predicate on characters"""
    i = sym('c', True); q = st.fork(); r = m.callclo(q, clo, [i])
    if q.dead or r.unk: return None
    if r.op == 'eq' and i in r.args and (k := r.args[r.args[0] is i]).op == 'str': return k
    return ext('charset', G(i, I(1 << 20), seq(one(r))))
def seqs(m, st, name, p, a, V, x, aty, ty, n, subs):
    sp = n.get('sp')
    if x is None: return None
    ref = a[0] if a[0].op == 'ref' else None
    s = x
    if name in ('map', 'enumerate', 'zip', 'rev', 'take', 'skip', 'chain', 'flat_map', 'filter', 'filter_map', 'find', 'position', 'rposition', 'any', 'all', 'count', 'fold', 'sum', 'for_each', 'next', 'step_by', 'flatten', 'find_map', 'rfind', 'skip_while', 'try_for_each', 'try_fold', 'product', 'unzip', 'last', 'nth', 'cycle', 'map_while', 'take_while', 'skip_while', 'inspect', 'cloned', 'copied', 'contains', 'partition', 'len', 'is_empty'):
        s = asseq(m, x, aty if not aty.startswith('?') else '')
        if s is None:
            if x.op == 'rng' and x.args[1].op == 'none':
                # an unbounded range
                if name == 'zip':
                    o = asseq(m, V[1]); bv = sym('i', True)
                    return G(bv, ln(o), seq(one(tup(add(x.args[0], bv), idx(o, bv)))))
                if name == 'take': return asseq(m, raw('rng', x.args[0], add(x.args[0], V[1])))
            return unk('iter', x)
    if name == 'len': return ln(s)
    if name == 'is_empty': 
        if x.op == 'rng': return not_(gt(x.args[1], x.args[0]))
        return eq(ln(s), I(0))
    if name == 'push' or name == 'push_back':
        if ref is None: return unk('push')
        m.write(st, ref, seq(x, one(V[1]))); return UNIT
    if name == 'extend_from_slice' or name == 'extend' or name == 'append':
        if ref is None: return unk('extend')
        o = asseq(m, V[1], n['args'][-1].get('ty', '') if n.get('args') else '')
        if name == 'append' and a[1].op == 'ref': m.write(st, a[1], EMPTY)
        m.write(st, ref, seq(x, o if o is not None else unk('extend'))); return UNIT
    if name == 'resize' and ref is not None:
        k = ln(x); m.write(st, ref, ite(ge(V[1], k), seq(x, rep(V[2], sub(V[1], k))), sl(x, I(0), V[1]))); return UNIT
    if name == 'truncate' and ref is not None: m.write(st, ref, sl(x, I(0), mnt(ln(x), V[1]))); return UNIT
    if name == 'clear' and ref is not None: m.write(st, ref, EMPTY); return UNIT
    if name == 'pop' and ref is not None:
        k = ln(x); m.write(st, ref, ite(ge(k, I(1)), sl(x, I(0), sub(k, I(1))), EMPTY)); return somev(ge(k, I(1)), idx(x, sub(k, I(1))))
    if name == 'insert' and ref is not None and len(V) == 3:
        m.write(st, ref, seq(sl(x, I(0), V[1]), one(V[2]), sl(x, V[1], ln(x)))); return UNIT
    if name == 'split_off' and ref is not None:
        m.need(st, 'slice', ge(ln(x), V[1]), sp)
        m.write(st, ref, sl(x, I(0), V[1])); return sl(x, V[1], ln(x))
    if name == 'splice' and ref is not None and len(V) == 3 and V[1].op == 'rng':
        lo, hi = V[1].args; lo = I(0) if lo.op == 'none' else lo; hi = ln(x) if hi.op == 'none' else hi
        o = asseq(m, V[2], n['args'][-1].get('ty', '') if n.get('args') else '')
        m.need(st, 'slice', and_(ge(hi, lo), ge(ln(x), hi)), sp)
        m.write(st, ref, seq(sl(x, I(0), lo), o if o is not None else unk('splice'), sl(x, hi, ln(x)))); return sl(x, lo, hi)
    if name in ('rotate_left', 'rotate_right') and ref is not None and len(V) == 2:
        m.need(st, 'slice', ge(ln(x), V[1]), sp)
        k = V[1] if name == 'rotate_left' else sub(ln(x), V[1])
        m.write(st, ref, seq(sl(x, k, ln(x)), sl(x, I(0), k))); return UNIT
    if name == 'reverse' and ref is not None:
        m.write(st, ref, rev(x)); return UNIT
    if name == 'fill' and ref is not None: m.write(st, ref, rep(V[1], ln(x))); return UNIT
    if name in ('copy_from_slice', 'clone_from_slice') and ref is not None:
        m.need(st, 'copy-len', eq(ln(x), ln(V[1])), sp)
        m.write(st, ref, V[1]); return UNIT
    if name in ('sort', 'sort_unstable', 'sort_by_key', 'sort_by', 'dedup', 'dedup_by', 'dedup_by_key', 'swap', 'sort_unstable_by_key', 'rotate_left', 'rotate_right', 'remove', 'swap_remove') and ref is not None:
        if name == 'remove' and cst(V[1]) is not None:
            m.need(st, 'index', gt(ln(x), V[1]), sp)
            m.write(st, ref, seq(sl(x, I(0), V[1]), sl(x, add(V[1], I(1)), ln(x)))); return idx(x, V[1])
        if len(V) > 1 and V[1].op in ('clo', 'fn'):
            # the order is a function of the keys (or of the pairwise comparisons)
            i, j = sym('i', True), sym('j', True); k = ln(x)
            q = st.fork()
            if name.endswith('_key'): V[1] = G(i, k, seq(one(m.callclo(q, a[1], [idx(x, i)]))))
            else: V[1] = G(i, k, seq(one(G(j, k, seq(one(m.callclo(q, a[1], [idx(x, i), idx(x, j)])))))))
            if a[1].op == 'clo': m.escape(st, a[1])
        m.write(st, ref, ext(name, *V)); return UNIT if name not in ('remove', 'swap_remove') else idx(x, V[1])
    if name == 'retain' and ref is not None: m.write(st, ref, acc(m, st, x, lambda q, e: [site(m.callclo(q, a[1], [e]), seq(one(e)), EMPTY)])); return UNIT
    if name in ('get', 'get_mut'):
        i = V[1]
        if i.op == 'rng':
            lo, hi = i.args; lo = I(0) if lo.op == 'none' else lo; hi = ln(x) if hi.op == 'none' else hi
            return somev(and_(ge(hi, lo), ge(ln(x), hi)), raw('ref', ref.args[0], ref.args[1] + (('sl', lo, hi),)) if name == 'get_mut' and ref is not None else sl(x, lo, hi))
        return somev(gt(ln(x), i), raw('ref', ref.args[0], ref.args[1] + (('idx', i),)) if name == 'get_mut' and ref is not None else idx(x, i))
    if name == 'first': return somev(ge(ln(x), I(1)), idx(x, I(0)))
    if name == 'last': return somev(ge(ln(s), I(1)), idx(s, sub(ln(s), I(1))))
    if name in ('split_at', 'split_at_mut'):
        m.need(st, 'slice', ge(ln(x), V[1]), sp)
        if name == 'split_at_mut' and ref is not None:
            mk = lambda lo, hi: raw('ref', ref.args[0], ref.args[1] + (('sl', lo, hi),))
            return tup(mk(I(0), V[1]), mk(V[1], ln(x)))
        return tup(sl(x, I(0), V[1]), sl(x, V[1], ln(x)))
    if name == 'split_at_checked': return somev(ge(ln(x), V[1]), tup(sl(x, I(0), V[1]), sl(x, V[1], ln(x))))
    if name == 'split_first': return somev(ge(ln(x), I(1)), tup(idx(x, I(0)), sl(x, I(1), ln(x))))
    if name == 'split_last': return somev(ge(ln(x), I(1)), tup(idx(x, sub(ln(x), I(1))), sl(x, I(0), sub(ln(x), I(1)))))
    if name in ('first_chunk', 'split_first_chunk', 'last_chunk', 'split_last_chunk'):
        k = arrlen(ty) or (int(subs[-1]) if subs and subs[-1].isdigit() else None)
        if k is None: return unk(name)
        cut = I(k) if 'first' in name else sub(ln(x), I(k)); lo, hi = sl(x, I(0), cut), sl(x, cut, ln(x))
        return somev(ge(ln(x), I(k)), tup(lo, hi) if name.startswith('split') else lo if 'first' in name else hi)
    if name in ('chunks', 'chunks_exact', 'windows', 'array_chunks'):
        import rust
        k = V[1]; bv = sym('i', True)
        if name == 'chunks_exact': return raw('seq', raw('G', bv, rust.udiv(ln(x), k), raw('seq', one(sl(x, mul(bv, k), add(mul(bv, k), k))))))
        if name == 'chunks': return raw('seq', raw('G', bv, rust.udiv(add(ln(x), k, I(-1)), k), raw('seq', one(sl(x, mul(bv, k), mnt(ln(x), add(mul(bv, k), k)))))))
        if name == 'windows': return raw('seq', raw('G', bv, mnt_pos(add(ln(x), neg(k), I(1))), raw('seq', one(sl(x, bv, add(bv, k))))))
    if name in ('eq', 'ne'):
        e = m.eqv(x, V[1]); return e if name == 'eq' else not_(e)
    if name in ('starts_with', 'ends_with') and len(V) == 2:
        k = ln(V[1])
        return and_(ge(ln(x), k), eq(sl(x, I(0), k) if name[0] == 's' else sl(x, sub(ln(x), k), ln(x)), V[1]))
    if name == 'strip_prefix':
        k = ln(V[1]); return somev(and_(ge(ln(x), k), eq(sl(x, I(0), k), V[1])), sl(x, k, ln(x)))
    if name == 'concat' or name == 'join':
        if len(V) == 1:
            return acc(m, st, x, lambda q, e: [e])
        return ext('join', *V)
    if name == 'contains': return not_(allf(m, st, s, lambda q, e: not_(m.eqv(e, V[1]))))
    # iterators
    if name == 'map': return acc(m, st, s, lambda q, e: [one(m.callclo(q, a[1], [e]))])
    if name == 'inspect': return acc(m, st, s, lambda q, e: (m.callclo(q, a[1], [e]), [one(e)])[1])
    if name == 'filter': return acc(m, st, s, lambda q, e: [site(m.callclo(q, a[1], [e]), seq(one(e)), EMPTY)])
    if name == 'filter_map':
        def fm(q, e):
            r = m.callclo(q, a[1], [e])
            return [site(isv(r, 'Some'), seq(one(pl(r, 'Some', 0))), EMPTY)]
        return acc(m, st, s, fm)
    if name in ('flat_map', 'flatten'):
        def fl(q, e):
            r = m.val(q, m.callclo(q, a[1], [e]) if name == 'flat_map' else e)
            t = asseq(m, r)
            return [t if t is not None else unk('flat')]
        return acc(m, st, s, fl)
    if name == 'enumerate':
        bvv = m.view(s) if s.op != 'ite' else None
        if bvv is not None and bvv[2] is TRUE:
            bv, k, _, e = bvv; return graw(bv, k, tup(bv, e))
        m.fresh += 1; cell = ('t', m.fresh); st.store[cell] = I(0)
        def en(q, e):
            i = q.store[cell]; q.store[cell] = add(i, I(1)); return [one(tup(i, e))]
        return acc(m, st, s, en)
    if name == 'zip':
        o = asseq(m, V[1], n['args'][-1].get('ty', '') if n.get('args') else '')
        bv = sym('i', True)
        if o is None:
            if V[1].op == 'rng': return graw(bv, ln(s), tup(idx(s, bv), add(V[1].args[0], bv)))
            return unk('zip')
        return graw(bv, mnt(ln(s), ln(o)), tup(idx(s, bv), idx(o, bv)))
    if name == 'rev': return rev(s)
    if name == 'take': return sl(s, I(0), mnt(ln(s), V[1]))
    if name == 'skip': 
        k = mnt(ln(s), V[1]); return sl(s, k, ln(s))
    if name == 'step_by':
        import rust
        bv = sym('i', True); return graw(bv, rust.udiv(add(ln(s), V[1], I(-1)), V[1]), idx(s, mul(bv, V[1])))
    if name == 'chain':
        o = asseq(m, V[1], n['args'][-1].get('ty', '') if n.get('args') else ''); return seq(s, o if o is not None else unk('chain'))
    if name == 'rfind': s, name = rev(s), 'find'
    back = name == 'rposition'
    if back: s, name = rev(s), 'position'
    if name == 'skip_while':
        bv, kk, c, e = view1(m, st, s)
        q = st.fork(c); cond = m.callclo(q, a[1], [e])
        return sl(s, brkn(bv, kk, not_(cond)), ln(s)) if c is TRUE else unk(name)
    if name in ('find', 'position', 'find_map', 'any', 'all', 'count', 'take_while', 'map_while'):
        if name == 'count': return ln(s)
        if name == 'any': return not_(allf(m, st, s, lambda q, e: not_(m.callclo(q, a[1], [e]))))
        if name == 'all': return allf(m, st, s, lambda q, e: m.callclo(q, a[1], [e]))
        if name == 'find_map':
            bv, k, c, e = view1(m, st, s)
            q = st.fork(c); r = m.callclo(q, a[1], [e]); cond = and_(c, isv(r, 'Some'))
            kk = brkn(bv, k, cond)
            return somev(not_(all_(bv, k, not_(cond))), subst(pl(r, 'Some', 0), {bv: kk}))
        found, k, e, c = search(m, st, s, a[1], aty)
        if name == 'find':
            if ref is not None and 'Iter' in head(aty): pass
            return somev(found, e)
        if name == 'position':
            if c is not TRUE: return unk('position')
            return somev(found, k if not back else sub(sub(ln(s), I(1)), k))
        if name == 'take_while':
            bv, kk, c, e = view1(m, st, s)
            q = st.fork(c); cond = m.callclo(q, a[1], [e])
            return sl(s, I(0), brkn(bv, kk, not_(cond))) if c is TRUE else unk('take_while')
        return unk(name)
    if name == 'fold':
        m.fresh += 1; cell = ('t', m.fresh); st.store[cell] = V[1]
        def fo(q, e): 
            v = m.callclo(q, a[2], [q.store[cell], e])
            if not q.dead: q.store[cell] = v
            return UNIT
        m.foreach(st, Frame(None), s, fo)
        return st.store[cell]
    if name in ('try_fold', 'try_for_each'):
        m.fresh += 1; cell = ('t', m.fresh); st.store[cell] = V[1] if name == 'try_fold' else UNIT
        fr2 = Frame(None); base = len(st.pc)
        def tf(q, e):
            r = m.callclo(q, a[2], [q.store[cell], e]) if name == 'try_fold' else m.callclo(q, a[1], [e])
            good = 'Some' if isopt_t(ty) else 'Ok'
            c = isv(r, good)
            if c is not TRUE:
                q2 = q.fork(not_(c))
                if not q2.dead: m.exit(q2, fr2, Err(pl(r, 'Err', 0)))
                q.know(c)
            if name == 'try_fold': q.store[cell] = pl(r, good, 0)
            return UNIT
        m.foreach(st, fr2, s, tf)
        return m.finish(st, fr2, base, Ok(st.store[cell]))
    if name in ('sum', 'product'):
        m.fresh += 1; cell = ('t', m.fresh); st.store[cell] = I(0 if name == 'sum' else 1)
        def su(q, e): q.store[cell] = add(q.store[cell], e) if name == 'sum' else mul(q.store[cell], e); return UNIT
        m.foreach(st, Frame(None), s, su)
        return st.store[cell]
    if name == 'for_each':
        m.foreach(st, Frame(None), s, lambda q, e: m.callclo(q, a[1], [e])); return UNIT
    if name == 'next':
        if ref is None: return unk('next')
        c = ge(ln(s), I(1))
        m.write(st, ref, ite(c, sl(s, I(1), ln(s)), EMPTY)); return somev(c, idx(s, I(0)))
    if name == 'nth':
        return somev(gt(ln(s), V[1]), idx(s, V[1]))
    if name == 'partition':
        return tup(acc(m, st, s, lambda q, e: [site(m.callclo(q, a[1], [e]), seq(one(e)), EMPTY)]), acc(m, st, s, lambda q, e: [site(m.callclo(q, a[1], [e]), EMPTY, seq(one(e)))]))
    if name == 'unzip':
        return tup(acc(m, st, s, lambda q, e: [one(fld(e, '0'))]), acc(m, st, s, lambda q, e: [one(fld(e, '1'))]))
    if name in ('max', 'min', 'max_by_key', 'min_by_key'):
        return ext('iter_' + name, s) if len(V) == 1 else unk(name)
    return None

def graw(bv, n, e): return raw('seq', raw('G', bv, n, raw('seq', one(e)))) if cst(n) != 0 else EMPTY
def rev(s):
    bv = sym('i', True); n = ln(s)
    return graw(bv, n, idx(s, sub(sub(n, I(1)), bv)))
def allf(m, st, s, f):
    if s.op == 'seq' and not s.args: return TRUE
    v = m.view(s) if s.op != 'ite' else None
    if v is None and s.op == 'seq':
        out = []
        for g in s.args:
            if g.op == 'one': out.append(f(st.fork(), g.args[0]))
            elif g.op == 'site': out.append(ite(g.args[0], allf(m, st, g.args[1], f), allf(m, st, g.args[2], f)))
            elif g.op == 'G':
                bv = sym('i', True)
                out.append(all_(bv, g.args[1], allf(m, st, subst(g.args[2], {g.args[0]: bv}), f)))
            else: out.append(allf(m, st, g, f))
        return and_(*out)
    bv, n, c, e = view1(m, st, s)
    q = st.fork(c)
    return all_(bv, n, or_(not_(c), f(q, e)))

def append(m, st, r, w, data, sp):
    """write data to an open file: the file's content becomes everything written through this handle"""
    old = w.args[1]; new = seq(old, data); key = (w.args[0], old)
    if old is not EMPTY:
        # a write that always follows the previous one replaces its event
        for i, e in enumerate(m.events):
            if e[0] == 'fs.write' and e[2] == key:
                done = isv(ext('wrote', *key), 'Ok')
                if all(c is done or c in e[1] for c in st.pc): del m.events[i]
                break
    m.event(st, 'fs.write', (w.args[0], new), sp)
    if r is not None and r.op == 'ref': m.write(st, r, raw('wfile', w.args[0], new, *w.args[2:]))
    return Ok(UNIT) if len(w.args) > 3 and r is not None and r.op == 'ref' else ext('wrote', w.args[0], new)      # a buffered write is certain only after flush
def io(m, st, name, p, a, V, x, aty, ty, n, subs):
    sp = n.get('sp')
    if p == 'std::fs::read': return okv(ext('canread', x), ext('file', x))
    if p == 'std::fs::read_to_string': return okv(and_(ext('canread', x), ext('utf8', ext('file', x))), ext('file', x))
    if p.startswith('std::fs') and ('OpenOptions' in ty or 'OpenOptions' in aty or 'OpenOptions' in p):
        if name == 'new': return adt('openopts', {k: FALSE for k in ('read', 'write', 'append', 'truncate', 'create', 'create_new')})
        if x is not None and x.op == 'adt' and x.args[0] == 'openopts':
            if name == 'open':
                f = {k: fld(x, k) for k in ('read', 'write', 'append', 'truncate', 'create', 'create_new')}
                if f['write'] is FALSE and f['append'] is FALSE: return okv(ext('canread', V[1]), rdr(ext('file', V[1]), I(0)))
                m.event(st, 'fs.create', (V[1],), sp)
                how = '' if f['append'] is FALSE and f['truncate'] is TRUE and f['create'] is TRUE and f['create_new'] is FALSE else 'new' if f['create_new'] is TRUE else 'append' if f['append'] is TRUE else 'over'
                m.fresh += 1
                return okv(ext('cancreate', V[1]), raw('wfile', V[1] if not how else ext('open.' + how, V[1], f['create'], f['truncate']), EMPTY, m.fresh))
            if name in ('read', 'write', 'append', 'truncate', 'create', 'create_new') and a[0].op == 'ref':
                m.write(st, a[0], raw('adt', 'openopts', tuple((k, V[1] if k == name else v) for k, v in x.args[1]))); return a[0]
            if name in ('mode', 'custom_flags'): return a[0]
    if name == 'open' and p.startswith('std::fs'): return okv(ext('canread', x), rdr(ext('file', x), I(0)))
    if p == 'std::fs::write':
        m.event(st, 'fs.write', (x, V[1]), sp); return ext('wrote', x, V[1])
    if name == 'create' and p.startswith('std::fs'):
        m.fresh += 1
        m.event(st, 'fs.create', (x,), sp); return okv(ext('cancreate', x), raw('wfile', x, EMPTY, m.fresh))
    if p.startswith('std::fs::') or p.startswith('std::process') or p.startswith('std::env') or p.startswith('std::net'):
        m.event(st, 'sys:' + p, tuple(V), sp); return ext(p.replace('::', '.'), *V)
    if x is not None and x.op == 'wfile' and name in ('write_all', 'write'):
        return append(m, st, a[0], x, V[1] if name == 'write_all' else ext('prefix', V[1]), sp)
    if x is not None and x.op == 'wfile':
        if name in ('by_ref', 'get_mut', 'get_ref', 'try_clone'): return a[0] if name in ('by_ref', 'get_mut') else x if name == 'get_ref' else okv(TRUE, x)
    r = a[0] if a else None
    if x is not None and x.op == 'adt' and x.args[0] == 'rdr' and r.op == 'ref':
        F, pos = fld(x, 'F'), fld(x, 'pos')
        put = lambda q: m.write(st, r, rdr(F, q))
        if name == 'read_exact':
            buf = V[1]; k = ln(buf); c = ge(ln(F), add(pos, k))
            if a[1].op == 'ref': m.write(st, a[1], sl(F, pos, add(pos, k)))
            put(add(pos, k)); return okv(c, UNIT)
        if name == 'read_to_end':
            m.write(st, a[1], seq(V[1], sl(F, pos, ln(F)))); put(ln(F)); return okv(ext('canread_all', F) if F.op != 'ext' or F.args[0] != 'file' else ext('canread', F.args[1]), sub(ln(F), pos))
        if name == 'seek':
            w = V[1]; vn = w.args[0].split('::')[-1] if w.op == 'var' else ''
            if vn == 'Start': put(w.args[1][0]); return Ok(w.args[1][0])
            if vn == 'Current': put(add(pos, w.args[1][0])); return okv(ge(add(pos, w.args[1][0]), I(0)), add(pos, w.args[1][0]))
            if vn == 'End': put(add(ln(F), w.args[1][0])); return okv(ge(add(ln(F), w.args[1][0]), I(0)), add(ln(F), w.args[1][0]))
            return unk('seek')
        if name == 'seek_relative': put(add(pos, V[1])); return okv(ge(add(pos, V[1]), I(0)), UNIT)
        if name in ('stream_position',): return Ok(pos)
        if name == 'position': return pos
        if name == 'set_position': put(V[1]); return UNIT
        if name in ('rewind',): put(I(0)); return Ok(UNIT)
        if name == 'get_ref': return F
        if name == 'take': return adt('rdtake', {'r': r, 'n': V[1]})
        if name in ('read', 'read_to_string', 'read_line', 'lines', 'bytes', 'metadata'): return unk('reader.' + name)
    if x is not None and x.op == 'adt' and x.args[0] == 'rdtake' and name in ('read_to_end',):
        rr = fld(x, 'r'); R = m.read(st, rr); F, pos = fld(R, 'F'), fld(R, 'pos')
        k = mnt_pos(mnt(fld(x, 'n'), sub(ln(F), pos)))
        m.write(st, a[1], seq(V[1], sl(F, pos, add(pos, k)))); m.write(st, rr, rdr(F, add(pos, k)))
        return okv(ext('canread_all', F) if F.op != 'ext' or F.args[0] != 'file' else ext('canread', F.args[1]), k)
    if x is not None and name == 'read_exact' and r.op == 'ref' and (head(aty).startswith('[u8]') or x.op in ('sl', 'seq')):
        buf = V[1]; k = ln(buf); c = ge(ln(x), k)
        m.write(st, a[1], sl(x, I(0), k)); m.write(st, r, sl(x, k, ln(x))); return okv(c, UNIT)
    if name in ('write_all',) and r is not None and r.op == 'ref' and p.startswith(('std::io', 'core::io', 'alloc::io')):
        m.write(st, r, seq(x, V[1])); return Ok(UNIT)
    return None

def crypto(m, st, name, p, a, V, x, aty, ty, n, subs, crate):
    sp = n.get('sp'); selfty = subs[0] if subs else ''
    # randomness
    if name in ('thread_rng', 'rng') and crate in ('rand', 'ark_std'): return raw('rngsrc', 'thread_rng')
    if name == 'test_rng': return raw('rngsrc', 'test_rng')
    if name in ('from_entropy', 'from_os_rng') and crate in ('rand',): return raw('rngsrc', 'entropy')
    if name in ('from_seed', 'seed_from_u64', 'from_rng') : return raw('rngsrc', 'seed', x)
    if name in ('fill_bytes', 'try_fill_bytes', 'fill', 'try_fill') and crate == 'rand' or p.startswith('getrandom::') or name == 'fill_bytes':
        b = a[1] if len(a) > 1 else a[0]
        bv = V[1] if len(V) > 1 else V[0]
        src = rngsrc(m, st, a[0]) if len(a) > 1 else raw('rngsrc', 'getrandom')
        new = rnd(m, ln(bv), src, 'bytes')
        fallible = p.startswith('getrandom::') or name.startswith('try')
        good = ext('entropy_ok', I(getattr(m, 'rndc', 0))) if fallible else TRUE
        if fallible: m.drawn[new] = good
        if b.op == 'ref': m.write(st, b, new)
        return okv(good, UNIT) if fallible else UNIT
    if name == 'generate_nonce':
        return rnd(m, I(12), rngsrc(m, st, a[0]), 'bytes')
    if name in ('gen', 'random') and crate == 'rand':
        k = arrlen(ty)
        return rnd(m, I(k) if k else S(head(ty)), rngsrc(m, st, a[0]) if a else raw('rngsrc', 'thread_rng'), 'bytes')
    if name == 'rand' and (crate in ('ark_std', 'ark_ff', 'ark_ec')): return rnd(m, S('elem'), rngsrc(m, st, a[0]), '')
    # AEAD and stream ciphers
    if crate in ('aes_gcm', 'cipher', 'ctr', 'aes', 'aead'):
        if name == 'new_from_slice':
            return okv(eq(ln(x), I(32)), ext('cipher', S(ciphname(selfty, ty)), x))
        if name == 'new':
            return ext('cipher', S(ciphname(selfty, ty)), *V)
        if name == 'new_from_slices':
            return okv(and_(eq(ln(x), I(32)), eq(ln(V[1]), I(16))), ext('cipher', S(ciphname(selfty, ty)), *V))
        if name == 'from_slice':
            k = 12 if 'U12' in ty or 'UInt' in ty else None
            return x
        if name in ('encrypt', 'decrypt'):
            msg, aad = V[2], EMPTY
            if msg.op == 'adt' and len(msg.args[1]) == 2: msg, aad = fld(V[2], 'msg'), fld(V[2], 'aad')
            k = ext(name + '_ok', x, V[1], msg, aad)
            if name == 'decrypt': k = and_(ge(ln(msg), I(16)), k)   # shorter than a tag: never authentic
            return okv(k, ext(name, x, V[1], msg, aad))
        if name in ('encrypt_in_place', 'decrypt_in_place'):
            c = ext(name[:7] + '_ok', x, V[1], V[3], V[2])
            if a[3].op == 'ref': m.write(st, a[3], ext(name[:7], x, V[1], V[3], V[2]))
            return okv(c, UNIT)
        if name == 'encrypt_in_place_detached':
            e = ext('encrypt', x, V[1], V[3], V[2]); k = ln(V[3])
            if a[3].op == 'ref': m.write(st, a[3], sl(e, I(0), k))
            return okv(ext('encrypt_ok', x, V[1], V[3], V[2]), sl(e, k, add(k, I(16))))
        if name == 'decrypt_in_place_detached':
            msg = seq(V[3], V[4])
            if a[3].op == 'ref': m.write(st, a[3], ext('decrypt', x, V[1], msg, V[2]))
            return okv(ext('decrypt_ok', x, V[1], msg, V[2]), UNIT)
        if name in ('apply_keystream',):
            if a[1].op == 'ref':
                m.write(st, a[1], ext('keystream', x, V[1]))
                if a[0].op == 'ref': m.write(st, a[0], ext('keystream_next', x, ln(V[1])) if not (x.op == 'ext' and x.args[0] == 'keystream_next') else ext('keystream_next', x.args[1], add(x.args[2], ln(V[1]))))
            return UNIT
        if name == 'generate_key': return rnd(m, I(32), rngsrc(m, st, a[0]), 'bytes')
    # arkworks
    if name == 'zero' and 'gr1cs' in p: return EMPTY
    if name == 'zero': return I(0)
    if name == 'one': return I(1)
    if name == 'is_zero': return eq(x, I(0))
    if name == 'is_one': return eq(x, I(1))
    if name == 'generator': return ext('generator', S(gname(ty)))
    if name == 'inverse': 
        import rust
        return somev(not_(eq(x, I(0))), rust.inv(x))
    if name == 'msm': return okv(eq(ln(x), ln(V[1])), ext('msm', x, V[1]))
    if name in ('msm_unchecked',): return ext('msm', x, V[1])
    if name == 'pairing': return ext('pairing', x, V[1])
    if name == 'mul_bigint': return mul(x, V[1])
    if name == 'square': return mul(x, x)
    if name == 'double': return mul(I(2), x)
    if name == 'pow' and crate.startswith('ark'): return ext('pow', *V)
    if name == 'neg': return neg(x)
    if name == 'from_le_bytes_mod_order': return ext(name, unpad(x))
    if name == 'from_be_bytes_mod_order': return ext(name, x)
    if name in ('from_random_bytes',): return ext(name, x)
    if name in ('add_assign', 'sub_assign', 'mul_assign') and a[0].op == 'ref':
        m.write(st, a[0], {'a': add, 's': sub, 'm': mul}[name[0]](x, V[1])); return UNIT
    if name in ('normalize_batch', 'batch_convert_to_mul_base'): return x
    if name.startswith('deserialize_'):
        k = ext('deser', S(name[12:]), S(head(selfty).split('<')[0]), x if x.op != 'adt' else raw('tup', fld(x, 'F'), fld(x, 'pos')))
        if a[0].op == 'ref' and x.op == 'adt':
            m.write(st, a[0], rdr(fld(x, 'F'), ext('deser_end', k)))
        return okv(ext('deser_ok', k), k)
    if name.startswith('serialize_') and len(V) == 2 and crate not in ('bincode', 'serde_json'):
        if V[1].op == 'wfile': return okv(and_(ext('ser_ok', x), isv(append(m, st, a[1], V[1], ext('ser', S(name[10:]), x), sp), 'Ok')), UNIT)
        if a[1].op == 'ref': m.write(st, a[1], seq(V[1], ext('ser', S(name[10:]), x)))
        else: m.event(st, 'ser', (x,), sp)
        return okv(ext('ser_ok', x), UNIT)
    if name == 'new_ref' and 'gr1cs' in p: return ext('cs')
    if name in ('new_input_variable', 'new_witness_variable'):
        kind = 'input' if 'input' in name else 'witness'
        f = a[1]
        v = m.callclo(st, f, []) if f.op in ('clo', 'fn') else V[1]
        ok = isv(v, 'Ok'); val = pl(v, 'Ok', 0)
        m.event(st, 'cs.' + kind, (val,), sp)
        return okv(and_(ok, ext('cs_ok', S(kind), val)), ext('csvar', S(kind), val))
    if name == 'enforce_constraint' or name == 'enforce_r1cs_constraint':
        q = []
        for y in a[1:]:
            y = m.val(st, y)
            ys = list(y.args) if y.op == 'arr' else [z.args[0] for z in y.args] if y.op == 'seq' and all(z.op == 'one' for z in y.args) else [y]
            q += [m.callclo(st, z, []) if z.op == 'clo' else z for z in ys]
        m.event(st, 'cs.enforce', tuple(q), sp)
        return okv(ext('cs_ok', S('enforce'), *q), UNIT)
    if name == 'generate_constraints' and crate.startswith('ark'):
        m.event(st, 'cs.generate', (x,), sp)
        if a[0].op == 'ref': pass
        return okv(ext('synth_ok', x), UNIT)
    if crate == 'ark_relations':
        if name in ('is_satisfied',): return okv(ext('cs_ok', S('sat')), ext('is_satisfied', x))
        return ext(name, *V)
    # hashes, codecs
    if crate == 'blake3':
        if name == 'hash': return ext('blake3', x)
        if name == 'new': return ext('hasher', EMPTY)
        if name == 'update':
            if a[0].op == 'ref': m.write(st, a[0], ext('hasher', seq(x.args[1], V[1]) if x.op == 'ext' and x.args[0] == 'hasher' else unk('hasher')))
            return a[0]
        if name == 'finalize': return ext('blake3', x.args[1]) if x.op == 'ext' and x.args[0] == 'hasher' else unk('hasher')
        return x
    if crate == 'serde_json':
        if name in ('from_str', 'from_slice', 'from_reader', 'from_value'):
            t = S(jsonty(ty, subs))
            b = x
            if x.op == 'adt' and x.args[0] == 'rdr': b = sl(fld(x, 'F'), fld(x, 'pos'), ln(fld(x, 'F')))
            return okv(ext('json_ok', t, b), ext('json_val', t, b))
        if name in ('to_string', 'to_string_pretty', 'to_vec', 'to_vec_pretty', 'to_value'):
            t = 'pretty' if 'pretty' in name else 'plain'
            return okv(ext('ser_json_ok', x), ext('to_json', S(t), x))
        if name in ('to_writer', 'to_writer_pretty') :
            t = S('pretty' if 'pretty' in name else 'plain')
            w = m.val(st, V[0]) 
            if w.op == 'wfile':
                return okv(and_(ext('ser_json_ok', V[1]), isv(append(m, st, a[0], w, ext('to_json', t, V[1]), sp), 'Ok')), UNIT)
            elif a[0].op == 'ref': m.write(st, a[0], seq(w, ext('to_json', t, V[1])))
            return okv(ext('ser_json_ok', V[1]), UNIT)
        vt = {'as_object': 'Object', 'as_array': 'Array', 'as_str': 'String', 'as_bool': 'Bool'}
        if name in vt:
            k = 'serde_json::Value::' + vt[name]
            return ite(isv(x, k), Some(pl(x, k, 0)), NONE)
        vi = {'is_object': 'Object', 'is_array': 'Array', 'is_string': 'String', 'is_boolean': 'Bool', 'is_number': 'Number', 'is_null': 'Null'}
        if name in vi: return isv(x, 'serde_json::Value::' + vi[name])
        if name in ('as_i64', 'as_u64', 'as_f64') and head(aty).endswith('Value'):
            k = 'serde_json::Value::Number'
            r = ext(name, pl(x, k, 0)); return ite(isv(x, k), r, NONE)
        return ext(name, *V)
    if crate == 'bincode':
        if name in ('serialize',): return okv(ext('ser_bin_ok', x), ext('to_bin', x))
        if name == 'serialize_into':
            w = ext('to_bin', V[1])
            if x.op == 'wfile': return okv(and_(ext('ser_bin_ok', V[1]), isv(append(m, st, a[0], x, w, sp), 'Ok')), UNIT)
            if a[0].op == 'ref': m.write(st, a[0], seq(x, w)); return okv(ext('ser_bin_ok', V[1]), UNIT)
            return unk('serialize_into')
        if name in ('deserialize', 'deserialize_from'):
            t = S(jsonty(ty, subs)); return okv(ext('bin_ok', t, x), ext('bin_val', t, x))
    if crate == 'hex':
        if name == 'decode': return okv(ext('hex_ok', x), ext('unhex', x))
        if name == 'encode': return ext('hex', x)
    if crate == 'wasm_bindgen' or crate == 'js_sys': return x if V else ext(name)
    return None

def jsonty(ty, subs):
    t = head(ty); t = re.sub(r'^[\w:]*Result<', '', t)
    t = t.split(',')[0].strip() if not t.startswith('(') else t
    return t.split('::')[-1].rstrip('>')
def gname(ty):
    t = head(ty)
    return 'G2' if 'G2' in t else 'G1' if 'G1' in t else t
def ciphname(selfty, ty):
    return re.sub(r'<.*?>', '', '') + re.sub(r"[\w]+::", '', (selfty or ty))
