"""The properties, as obligations over the value graphs of the repository's functions."""
from lib import *
import re
from refute import refute
P = {}
def prop(pid, rule):
    def d(f): P[pid] = (f, rule); return f
    return d

# ---------------------------------------------------------------- small vocabulary
def has_unk(*ts): return any(t.unk for t in ts)
def implies(a, b):
    """a => b, decided on normal forms"""
    k = conj(a); ks = set(k)
    for y in conj(b):
        if y in ks or prove(y, k): continue
        if same0(and_(a, y), a): continue
        if refuted(k + conj(not_(y))): continue
        return False
    return True
def refuted(facts):
    """unit propagation reaches a contradiction"""
    lits = [f for f in facts if f.op != 'or']; cl = [f for f in facts if f.op == 'or']
    for _ in range(8):
        new = []; rest = []
        if and_(*lits) is FALSE: return True
        for f in cl:
            y = assume(f, lits)
            if y is FALSE: return True
            for z in conj(y): (rest if z.op == 'or' else new).append(z)
        if not new: return False
        lits += new; cl = rest
    return False
def prove(x, facts, depth=3):
    """x follows from the facts: by absorption, by equalities among the facts, or on both sides of a gate inside x"""
    x = assume(x, facts)
    if x is TRUE: return True
    if x is FALSE or depth == 0: return False
    for f in facts:
        if f.op == 'eq0':
            d = f.args[0]
            for m, k in (d.args if d.op == 'poly' else ()):
                if len(m) == 1 and k in (1, -1) and any(m[0] is y for y in walk(x)):
                    v = add(m[0], mul(I(-k), d))
                    y = substany(x, {m[0]: v})
                    if y is not x and prove(y, [z for z in facts if z is not f], depth - 1): return True
    if x.op == 'ge0' and x.args[0].op == 'poly':
        com = set.intersection(*[set(m) for m, _ in x.args[0].args])
        for a in com:
            if nonneg(a):
                q = {}
                for m, k in x.args[0].args:
                    l = list(m); l.remove(a); q[tuple(l)] = k
                import terms
                if prove(ge0(terms.mkpoly(q)), facts, depth - 1): return True
    for y in walk(x):
        if y.op == 'ite' and not y.args[0].fv or y.op == 'ite' and not (y.args[0].fv - x.fv):
            g = y.args[0]
            return all(prove(assume(x, [h]), [assume(f, [h]) for f in facts] + [h], depth - 1) for h in (g, not_(g)))
    if x.op == 'and': return all(prove(y, facts, depth) for y in x.args)
    if x.op == 'or':
        at = [z for y in x.args for z in conj(y)]
        g = next((z for z in at if not_(z) in at), None)
        if g is not None: return all(prove(assume(x, [h]), conj(and_(*[assume(f, [h]) for f in facts], h)), depth - 1) for h in (g, not_(g)))
    return False
def exts(t, name): return [x for x in walk(t) if x.op == 'ext' and x.args[0] == name]
def file_(x): return ext('file', x)
def writes(r): return [e for e in r.events if e[0].endswith('fs.write')]
FRESH = ('OsRng', 'ThreadRng')
def drawn_ok(r, v):
    """success implies that every request for entropy behind v was granted"""
    return all(implies(r.ok, r.m.drawn[x]) for x in walk(v) if x in r.m.drawn)
def fresh_src(s):
    """randomness that comes from the operating system (directly, or through a generator seeded by it)"""
    if s.op == 'str': return s.args[0] in FRESH
    if s.op == 'var': return s.args[0].split('::')[-1] in FRESH
    if s.op == 'rngsrc':
        if s.args[0] in ('thread_rng', 'getrandom', 'entropy', 'webcrypto', 'OsRng'): return True
        if s.args[0] == 'seed' and isinstance(s.args[1], T):
            d = s.args[1]
            return d.op == 'rnd' and (cst(d.args[1]) or 0) >= 16 and fresh_src(d.args[2])
    return False
def rt(t):
    """round trips: decoders applied to the matching encoder's output"""
    memo = {}
    def f(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            if r.op == 'ext':
                n, a = r.args[0], r.args[1:]
                if n in ('decrypt', 'decrypt_ok') and len(a) == 4 and a[2].op == 'ext' and a[2].args[0] == 'encrypt' and a[2].args[1] is a[0] and a[2].args[2] is a[1] and a[2].args[4] is a[3]:
                    r = a[2].args[3] if n == 'decrypt' else TRUE
                elif n == 'keystream' and a[1].op == 'ext' and a[1].args[0] == 'keystream' and a[1].args[1] is a[0]: r = a[1].args[2]
                elif n in ('json_val', 'json_ok') and a[1].op == 'ext' and a[1].args[0] == 'to_json': r = a[1].args[2] if n == 'json_val' else TRUE
                elif n in ('bin_val', 'bin_ok') and a[1].op == 'ext' and a[1].args[0] == 'to_bin': r = a[1].args[1] if n == 'bin_val' else TRUE
                elif n == 'utf8' and a[0].op == 'ext' and a[0].args[0] == 'to_json': r = TRUE
            memo[x] = r
        return r
    return f(t)

# ---------------------------------------------------------------- C01 .. C04: symmetric encryption (Rust)
def cli(c, n): return c.one('zkenc_cli', n)
def need(c, *qs): return all(q is not None for q in qs)

def gcm_dec(c, key, where, val, ok, k, data):
    """val is the authenticated plaintext of data under k, and success implies that the tag verified"""
    if has_unk(val, ok): return c.add(key, where, 'undecided', 'outside the analysed language')
    d = val if val.op == 'ext' and val.args[0] == 'decrypt' else None
    if d is None: return c.add(key, where, 'violated', 'the result is not the output of authenticated decryption: ' + show(val, 0, 5)[:300])
    ci, n, ct, aad = d.args[1:5]
    name = ci.args[1].args[0] if ci.op == 'ext' and ci.args[0] == 'cipher' else ''
    c.true(key + '.cipher', where, ci.op == 'ext' and ci.args[0] == 'cipher' and name.startswith('AesGcm<Aes256') and ci.args[2] is k, 'cipher is %s' % show(ci, 0, 6))
    c.true(key + '.covers', where, same(assume(seq(n, ct), [ok]), data), 'nonce and ciphertext do not make up all of the input: %s' % show(seq(n, ct), 0, 6))
    c.true(key + '.verified', where, implies(ok, ext('decrypt_ok', ci, n, ct, aad)), 'success does not require the tag to verify: ' + show(ok, 0, 6)[:400])

@prop('C01', 'authenticated decryption: every plaintext that a decryption entry point returns or writes is the output of AES-256-GCM decryption of the whole message part, and its success condition implies that the tag verified')
def c01(c):
    q = cli(c, 'decrypt_gcm')
    if q:
        r = c.ev(q); gcm_dec(c, 'decrypt_gcm', q, r.val, r.ok, arg('a0'), arg('a1'))
    q = cli(c, 'decrypt_command')
    if q:
        r = cmd(c, 'decrypt_command')
        for i, e in enumerate(writes(r)):
            pl_ = e[2][1]
            if has_unk(pl_, *e[1]): c.add('decrypt_command.write', q, 'undecided'); continue
            ok = pl_.op == 'ext' and pl_.args[0] == 'decrypt' and implies(and_(*e[1]), ext('decrypt_ok', *pl_.args[1:]))
            c.true('decrypt_command.write', q, ok, 'writes %s' % show(pl_, 0, 5)[:300])

def enc_forms(c):
    return [(n, cli(c, n)) for n in ('encrypt_gcm', 'encrypt_ctr')]

@prop('C02', 'every nonce or IV in an encryption result is a fresh draw from an operating-system randomness source of the right width, used both as the cipher input and as the stored prefix')
def c02(c):
    for n, q in enc_forms(c):
        if not q: continue
        r = c.ev(q)
        if r.val.unk: c.add(n + '.nonce', q, 'undecided', 'outside the analysed language'); continue
        w = 12 if n == 'encrypt_gcm' else 16
        used = [x.args[2] for x in exts(r.val, 'encrypt')] if n == 'encrypt_gcm' else [x.args[3] for x in exts(r.val, 'cipher') if len(x.args) > 3]
        c.true(n + '.used', q, bool(used), 'no cipher invocation found in %s' % show(r.val, 0, 5)[:200])
        for x in used:
            c.true(n + '.fresh', q, x.op == 'rnd' and cst(x.args[1]) == w and fresh_src(x.args[2]), 'nonce is %s' % show(x, 0, 5)[:300])
            c.true(n + '.granted', q, drawn_ok(r, x), 'succeeds although the entropy request may have failed', r.ok.unk)
            c.true(n + '.stored', q, same(sl(r.val, I(0), I(w)), x), 'the stored prefix is %s' % show(sl(r.val, I(0), I(w)), 0, 5)[:300])

@prop('C03', 'decryption composed with encryption normalises to the identity on the plaintext, its success condition follows from the key length, and every result is prefix ++ ciphertext of the fixed layout')
def c03(c):
    for e, d in (('encrypt_gcm', 'decrypt_gcm'), ('encrypt_ctr', 'decrypt_ctr')):
        qe, qd = cli(c, e), cli(c, d)
        if not need(c, qe, qd): continue
        re_ = c.ev(qe); k = eq(ln(arg('a0')), I(32))
        rd = c.ev(qd, args=[arg('a0'), re_.val])
        ok = assume(rt(assume(rd.ok, [re_.ok, k])), [re_.ok, k]); v = rt(assume(rd.val, [re_.ok, k]))
        if has_unk(ok, v): c.add(d + '.roundtrip', qd, 'undecided'); continue
        c.same(d + '.roundtrip', qd, v, arg('a1'))
        c.true(d + '.accepts', qd, ok is TRUE, 'decryption of an encryption additionally requires %s' % show(ok, 0, 6)[:300])
        ok = assume(re_.ok, [k]); ok = and_(*[x for x in conj(ok) if not (x.op == 'ext' and x.args[0] == 'encrypt_ok')])
        c.true(e + '.accepts', qe, ok is TRUE, 'encryption with a 32-byte key additionally requires %s' % show(ok, 0, 6)[:300])
        w = 12 if 'gcm' in e else 16
        kind = 'encrypt' if 'gcm' in e else 'keystream'
        body = sl(re_.val, I(w), ln(re_.val))
        good = body.op == 'ext' and body.args[0] == kind
        if good:
            ci = body.args[1]; nm = ci.args[1].args[0] if ci.op == 'ext' and ci.args[0] == 'cipher' else '?'
            good = nm.startswith('AesGcm<Aes256, U12' if kind == 'encrypt' else 'Ctr64BE<Aes256>') and ci.args[2] is arg('a0') and body.args[3 if kind == 'encrypt' else 2] is arg('a1')
            if kind == 'encrypt': good = good and body.args[4] is EMPTY
        c.true(e + '.layout', qe, good, 'after the %d-byte prefix comes %s' % (w, show(body, 0, 6)[:300]))

@prop('C04', 'the success condition of every encryption and decryption entry point implies that the key has exactly 32 bytes')
def c04(c):
    for n in ('encrypt_gcm', 'decrypt_gcm', 'encrypt_ctr', 'decrypt_ctr'):
        q = cli(c, n)
        if not q: continue
        r = c.ev(q)
        if implies(r.ok, eq(ln(arg('a0')), I(32))): c.add(n, q, 'holds')
        else: c.add(n, q, 'undecided' if r.ok.unk else 'violated', 'succeeds under %s' % show(r.ok, 0, 6)[:300])

# ---------------------------------------------------------------- shared by the following properties
def core(c): return tuple(c.find('zkenc_core', 'encap') + c.find('zkenc_core', 'decap'))
def readers(c): return tuple(c.find('zkenc_cli', 'from_file') + c.find('zkenc_cli', 'to_field_elements'))
def jsparsers(c): return tuple(c.find('zkenc_js', 'parse_r1cs') + c.find('zkenc_js', 'parse_witness'))
def cmd(c, n, args=None):
    q = cli(c, n)
    return q and c.ev(q, args=args, opaque=core(c) + readers(c))
def wasm(c, n):
    q = c.one('zkenc_js', n)
    return q and c.ev(q, opaque=core(c) + jsparsers(c))
def the_call(c, key, r, name):
    """the one call of name that determines the function's results and effects"""
    xs = set(exts(r.ok, 'call:' + name)) | set(exts(r.val, 'call:' + name))
    for e in r.events:
        for a in e[2]:
            if isinstance(a, T): xs |= set(exts(a, 'call:' + name))
    if len(xs) == 1: return xs.pop()
    c.add(key, r.path, 'undecided' if r.ok.unk or r.val.unk or any(a.unk for e in r.events for a in e[2] if isinstance(a, T)) else 'violated', '%d different calls of %s determine the results' % (len(xs), name))
    return None
def okv(t): return pl(t, 'Ok', 0)
def result(c, key, a, b, oks=(), okonly=False, valonly=False):
    """function a against reference b: the same inputs are accepted, with the same result in every component"""
    want = and_(*oks, b.ok)
    if not valonly: c.same(key + '.accepts', a.path, a.ok, want)
    if okonly: return
    if b.val.op == 'adt':
        for n, _ in b.val.args[1]: c.same(key + '.' + n, a.path, fld(a.val, n), fld(b.val, n), conj(a.ok))
    else: c.same(key + '.value', a.path, a.val, b.val, conj(a.ok))
def events(c, key, a, b):
    x, y = [evterm(e) for e in a.events], [evterm(e) for e in b.events]
    c.same(key + '.effects', a.path, raw('seq', *[raw('one', e) for e in x]), raw('seq', *[raw('one', e) for e in y]))
def fileof(c, q): return file_(arg('a0', aty(c.p.fns[q]['params'][0]['ty'])))
def split2(c, key, r, got, want, cond):
    """got and want agree under cond and under its negation"""
    for tag, k in (('', cond), ('.else', not_(cond))):
        c.same(key + tag, r.path, assume(got, [k]), assume(want, [k]))
def ser(x): return ext('ser', S('compressed'), x)
def u32be(t): return enc('be', 4, trunc('u32', t))

# ---------------------------------------------------------------- C05, C06: the container
@prop('C05', 'the byte strings written by the encrypting and encapsulating commands equal flag ++ be32(len W) ++ W ++ [be32(len P) ++ P] ++ encrypted message, with W, P and the key taken from the same run')
def c05(c):
    for flag in (True, False):
        r = cmd(c, 'encrypt_command', [None] * 5 + [B(flag)])
        if not r: continue
        k = 'encrypt_command.' + ('public' if flag else 'nopublic')
        x = the_call(c, k, r, 'encap')
        if x is None: continue
        w = [e for e in writes(r) if e[2][0] is arg('a4')]
        if len(w) != 1: c.add(k + '.writes', r.path, 'undecided' if has_unk(*[a for e in r.events for a in e[2] if isinstance(a, T)]) else 'violated', '%d writes of the output file' % len(w)); continue
        got = w[0][2][1]; W = ser(fld(okv(x), '0')); Pu = file_(arg('a2'))
        es = exts(got, 'encrypt')
        head = [arr_one(I(1 if flag else 0)), u32be(ln(W)), W] + ([u32be(ln(Pu)), Pu] if flag else [])
        if len(es) != 1: c.add(k + '.message', r.path, 'undecided' if got.unk else 'violated', '%d encryptions in the output' % len(es)); continue
        e = es[0]
        c.same(k + '.key', r.path, e.args[1].args[2], fld(fld(okv(x), '1'), '0'))
        c.same(k + '.plaintext', r.path, e.args[3], file_(arg('a3')))
        c.same(k + '.layout', r.path, got, seq(*head, e.args[2], e))
    r = cmd(c, 'encap_command')
    if r:
        x = the_call(c, 'encap_command', r, 'encap')
        if x is not None:
            for i, p in enumerate(('a3', 'a4')):
                w = [e for e in writes(r) if e[2][0] is arg(p)]
                c.true('encap_command.write%d' % i, r.path, len(w) == 1, '%d writes of output %s' % (len(w), p))
                if w: c.same('encap_command.bytes%d' % i, r.path, w[0][2][1], ser(fld(okv(x), str(i))))
    r = wasm(c, 'wasm_encap')
    if r:
        x = the_call(c, 'wasm_encap', r, 'encap')
        if x is not None:
            c.same('wasm_encap.ciphertext', r.path, fld(r.val, 'ciphertext'), ser(fld(okv(x), '0')))
            c.same('wasm_encap.key', r.path, fld(r.val, 'key'), fld(fld(okv(x), '1'), '0'))
def arr_one(x): return seq(raw('one', x))

@prop('C06', 'readers of the container take flag, witness ciphertext, public input and encrypted message from the documented offsets, reject every container shorter than its length fields announce, and accept every well-formed one')
def c06(c):
    r = cmd(c, 'decrypt_command')
    if r:
        D = file_(arg('a2')); n = num('be', 4, sl(D, I(1), I(5))); end = add(n, I(5))
        m = num('be', 4, sl(D, end, add(end, I(4)))); flag = eq(idx(D, I(0)), I(1))
        x = the_call(c, 'decrypt_command', r, 'decap')
        if x is not None:
            ds = exts(x, 'deser')
            ds = [d for d in ds if d.args[2].op == 'str' and d.args[2].args[0].endswith('Ciphertext')]
            if len(ds) == 1: c.same('decrypt_command.witness', r.path, ds[0].args[3], sl(D, I(5), end)); c.same('decrypt_command.mode', r.path, ds[0].args[1], S('compressed'))
            else: c.add('decrypt_command.witness', r.path, 'undecided' if x.unk else 'violated', '%d ciphertexts deserialised' % len(ds))
            w = [e for e in writes(r) if e[2][0] is arg('a3')]
            if len(w) != 1: c.add('decrypt_command.writes', r.path, 'undecided' if r.ok.unk else 'violated', '%d writes of the output' % len(w))
            else:
                for tag, k, off in (('public', flag, add(end, I(4), m)), ('nopublic', not_(flag), end)):
                    pc = assume(and_(*w[0][1]), [k]); v = assume(w[0][2][1], [k])
                    if v.op == 'ext' and v.args[0] == 'decrypt':
                        c.same('decrypt_command.message.' + tag, r.path, seq(v.args[2], v.args[3]), sl(D, off, ln(D)))
                        c.same('decrypt_command.key.' + tag, r.path, v.args[1].args[2] if v.args[1].op == 'ext' else v.args[1], fld(okv(x), '0'))
                    else: c.add('decrypt_command.message.' + tag, r.path, 'undecided' if v.unk else 'violated', 'writes ' + show(v, 0, 4)[:200])
                    lim = ge(ln(D), add(off, I(28)))
                    c.true('decrypt_command.bounds.' + tag, r.path, implies(pc, lim), 'a container shorter than its length fields announce is accepted: ' + show(pc, 0, 6)[:300], pc.unk)
                    rest = [y for y in conj(assume(pc, [lim, k, ge(ln(D), off), ge(ln(D), end)])) if not lenonly(y, D)]
                    extra = [y for y in conj(assume(pc, [lim, k, ge(ln(D), off), ge(ln(D), end)])) if lenonly(y, D)]
                    c.true('decrypt_command.accepts.' + tag, r.path, not extra, 'additionally requires %s' % [show(y, 0, 5) for y in extra], has_unk(*extra))
        panics(c, 'decrypt_command', r)
def lenonly(t, D):
    """t constrains only the lengths and length fields of D"""
    return t.op in ('ge0', 'eq0', 'not', 'or') and any(y is D for y in walk(t)) and not any(y.op == 'ext' and y is not D and y.args[0] not in ('file',) for y in walk(t))

# ---------------------------------------------------------------- C07 .. C11: file formats
@prop('C07', 'the values computed from a .r1cs file equal those of a reference reader written from the format description: header fields, every linear combination, wire labels, in any section order')
def c07(c):
    q = c.one('zkenc_cli', 'from_file', 'R1csFile')
    if q: result(c, 'cli', c.ev(q), c.spec('r1cs_file', [fileof(c, q)]), valonly=True)
    q = c.one('zkenc_js', 'parse_r1cs')
    if q:
        a, b = c.ev(q), c.spec('r1cs_js', [arg('a0')])
        h, k = fld(a.val, '0'), fld(b.val, '0')
        for n, _ in k.args[1]: c.same('js.header.' + n, q, fld(h, n), fld(k, n))
        c.same('js.constraints', q, fld(a.val, '1'), fld(b.val, '1'))
    for cr in ('zkenc_cli', 'zkenc_js'):
        for q in c.find(cr, 'n_public_inputs'):
            r = c.ev(q); x = arg('a0')
            if 'CircomCircuit' in (c.p.fns[q].get('impl_self') or ''): x = fld(x, 'r1cs')
            c.same('count.' + cr + '.' + (c.p.fns[q].get('impl_self') or '').split('::')[-1], q, r.val, add(fld(x, 'n_pub_out'), fld(x, 'n_pub_in')))

ENTRY = (('zkenc_cli', 'from_file', 'R1csFile'), ('zkenc_js', 'parse_r1cs', None), ('zkenc_cli', 'from_file', 'WitnessFile'),
         ('zkenc_js', 'parse_witness', None), ('zkenc_cli', 'parse_sym_file', None), ('zkenc_cli', 'parse_inputs', None),
         ('zkenc_cli', 'decrypt_gcm', None), ('zkenc_cli', 'decrypt_ctr', None), ('zkenc_cli', 'parse_circuit_inputs_with_keys', None))
def panics(c, key, r):
    """indexing and slicing stays in bounds on every path: an obligation fails when no gate on its path constrains the accessed length"""
    for o in r.obls:
        if o.kind in ('alloc',): continue
        fs = [y for z in list(o.pc) + list(o.ctx) for y in conj(z)]
        x = assume(o.cond, fs)
        k = '%s.%s.%s' % (key, o.fn.split('::')[-1], o.kind)
        if x is TRUE or prove(x, fs): c.add(k, o.fn, 'holds'); continue
        ref = refute(o.cond, fs)
        if ref: c.add(k, '%s:%s' % (o.fn, o.where[1] if o.where else ''), 'violated', 'panics: %s fails for %s' % (show(x, 0, 6)[:300], ', '.join('%s = %d' % (show(a, 0, 6)[:80], v) for a, v in ref.items()))); continue
        c.add(k, '%s:%s' % (o.fn, o.where[1] if o.where else ''), weak(x, fs), 'may panic: %s is not established' % show(x, 0, 6)[:300])
def weak(x, facts):
    """x is a linear bound; it is missing when no fact bounds the same quantities, or the only such fact is the same bound with a smaller constant"""
    if x.unk or x.op != 'ge0': return 'undecided'
    if any(f.unk for f in facts): return 'undecided'
    def split(p):
        d = {m: k for m, k in (p.args if p.op == 'poly' else (((p,), 1),) if p.op != 'int' else ())}
        k = d.pop((), 0); return d, k
    d, k = split(x.args[0])
    lens = {a for m in d for a in m if a.op == 'len'}
    if not lens: return 'undecided'
    rel = [f for f in facts if lens & set(walk(f))]
    if not rel: return 'violated'
    same_ = [f for f in rel if f.op == 'ge0' and split(f.args[0])[0] == d]
    if len(same_) == len(rel) and all(split(f.args[0])[1] > k for f in same_): return 'violated'
    return 'undecided'

def borrow(c, f, words):
    """the obligations of another property that this one also states"""
    n = len(c.obl)
    try: f(c)
    finally: c.obl[n:] = [o for o in c.obl[n:] if any(w in o['key'] for w in words)]
@prop('C08', 'the success condition of every parser equals that of the reference reader (magic, version, presence and bounds of every field), and every index and slice on a parsing path is guarded by a bound on the accessed length')
def c08(c):
    q = c.one('zkenc_cli', 'from_file', 'R1csFile')
    if q: result(c, 'cli.r1cs', c.ev(q), c.spec('r1cs_file', [fileof(c, q)]), [ext('canread', fileof(c, q).args[1])], okonly=True)
    q = c.one('zkenc_cli', 'from_file', 'WitnessFile')
    if q: result(c, 'cli.wtns', c.ev(q), c.spec('wtns_file', [fileof(c, q)]), [ext('canread', fileof(c, q).args[1])], okonly=True)
    for n, s in (('parse_r1cs', 'r1cs_js'), ('parse_witness', 'wtns_js')):
        q = c.one('zkenc_js', n)
        if q: result(c, 'js.' + n, c.ev(q), c.spec(s, [arg('a0')]), okonly=True)
    for cr, n, t in ENTRY:
        q = c.one(cr, n, t)
        if q: panics(c, n + ('.' + t if t else ''), c.ev(q))
    for n in ('decrypt_command', 'decap_command'):
        r = cmd(c, n)
        if r: panics(c, n, r)
    borrow(c, c06, ('.bounds.', '.mode', '.valid', '.witness'))

@prop('C09', 'the values computed from a .wtns file equal those of a reference reader, and the writers of the JavaScript packages produce exactly the layout that the reader consumes')
def c09(c):
    q = c.one('zkenc_cli', 'from_file', 'WitnessFile')
    if q: result(c, 'cli', c.ev(q), c.spec('wtns_file', [fileof(c, q)]), valonly=True)
    q = c.one('zkenc_cli', 'to_field_elements')
    if q:
        r = c.ev(q); E = ext('entries', fld(arg('a0'), 'assignments')); bv = sym('i', True); e = idx(E, bv)
        d = ext('deser', S('uncompressed'), S('F'), fld(e, '1'))
        c.same('elements.accepts', q, r.ok, all_(bv, ln(E), ext('deser_ok', d)))
        c.same('elements.value', q, r.val, assume(raw('map', seq(raw('G', bv, ln(E), seq(raw('one', raw('tup', fld(e, '0'), d)))))), [r.ok]))
    q = c.one('zkenc_js', 'parse_witness')
    if q: result(c, 'js', c.ev(q), c.spec('wtns_js', [arg('a0')]), valonly=True)
    r = wasm(c, 'wasm_decap')
    if r:
        x = the_call(c, 'wasm_decap', r, 'decap')
        if x is not None:
            v = okv(ext('call:parse_witness', arg('a1')))
            c.same('wasm_decap.witness', r.path, fld(x.args[1], 'witness'), c.spec('wasm_full', [v]).val)

@prop('C10', 'the wire map computed from a .sym file equals the reference map: field 2 is the wire, field 4 the name, negative wires are dropped, lines without four fields are skipped')
def c10(c):
    q = cli(c, 'parse_sym_file')
    if q: result(c, 'cli', c.ev(q), c.spec('sym'))

@prop('C11', 'the selected input signals equal the reference selection: names under "main." without the prefix, wires up to and including the bound, and callers pass the number of public wires as the bound')
def c11(c):
    q = cli(c, 'get_input_signals')
    if q: result(c, 'cli', c.ev(q), c.spec('inputs_of'))
    gi = tuple(c.find('zkenc_cli', 'get_input_signals'))
    for n in ('encap_command', 'encrypt_command'):
        q = cli(c, n)
        if not q: continue
        r = c.ev(q, opaque=core(c) + readers(c) + gi)
        x = the_call(c, n, r, 'encap')
        if x is None: continue
        gs = set(exts(x, 'call:get_input_signals'))
        if len(gs) != 1: c.add(n + '.bound', q, 'undecided', '%d selections' % len(gs)); continue
        g = gs.pop(); h = okv(ext('call:from_file', arg('a0')))
        c.same(n + '.bound', q, g.args[2], raw('var', 'Some', (add(fld(h, 'n_pub_out'), fld(h, 'n_pub_in')),)))

@prop('C12', 'the assignment given to encapsulation equals the reference assignment: wire 0 is one and each declared public input of the JSON object, arrays flattened as name[i], goes to the wire the symbol file gives its name')
def c12(c):
    for n in ('encap_command', 'encrypt_command'):
        r = cmd(c, n)
        if not r: continue
        x = the_call(c, n, r, 'encap')
        if x is None: continue
        C = x.args[1]; h = okv(ext('call:from_file', arg('a0')))
        b = c.spec('public_witness', [h, file_(arg('a1')), file_(arg('a2'))])
        c.same(n + '.witness', r.path, assume(fld(C, 'witness'), [r.ok]), assume(b.val, [r.ok]))
        c.same(n + '.circuit', r.path, fld(C, 'r1cs'), h)
        if not b.ok.unk: c.true(n + '.accepts', r.path, implies(r.ok, b.ok), 'input that the reference rejects is accepted: requires only ' + show(r.ok, 0, 5)[:300], r.ok.unk)
    r = wasm(c, 'wasm_encap')
    if r:
        x = the_call(c, 'wasm_encap', r, 'encap')
        if x is not None:
            h = okv(ext('call:parse_r1cs', arg('a0'))); v = okv(ext('call:parse_witness', arg('a1')))
            c.same('wasm_encap.witness', r.path, fld(x.args[1], 'witness'), c.spec('wasm_public', [fld(h, '0'), v]).val)
            c.same('wasm_encap.header', r.path, fld(x.args[1], 'header'), fld(h, '0'))
            c.same('wasm_encap.constraints', r.path, fld(x.args[1], 'constraints'), fld(h, '1'))

@prop('C13', 'every JSON number or string becomes the field element it denotes: unsigned integers, negative integers as the negated magnitude, decimal strings through the field parser, anything else is an error')
def c13(c):
    q = cli(c, 'parse_circuit_inputs_with_keys')
    if q: result(c, 'cli.by_name', c.ev(q), c.spec('fields_by_name'))
    q = cli(c, 'parse_circuit_inputs')
    if q: result(c, 'cli.in_order', c.ev(q), c.spec('fields_in_order'))

@prop('C14', 'circuit synthesis performs exactly the reference effects: wire 0 is one, public wires then private wires are allocated in order with their values, and each constraint is enforced as A, B, C with all of its factors')
def c14(c):
    for cr, s in (('zkenc_cli', 'synth_cli'), ('zkenc_js', 'synth_js')):
        q = c.one(cr, 'generate_constraints')
        if not q: continue
        a, b = c.ev(q), c.spec(s)
        result(c, s, a, b, valonly=True); c.same(s + '.accepts', q, a.ok, b.ok); events(c, s, a, b)
    r = wasm(c, 'wasm_decap')
    if r:
        x = the_call(c, 'wasm_decap', r, 'decap')
        if x is not None:
            h = okv(ext('call:parse_r1cs', arg('a0')))
            c.same('wasm_decap.header', r.path, fld(x.args[1], 'header'), fld(h, '0'))
            c.same('wasm_decap.constraints', r.path, fld(x.args[1], 'constraints'), fld(h, '1'))
    r = cmd(c, 'decap_command')
    if r:
        x = the_call(c, 'decap_command', r, 'decap')
        if x is not None:
            c.same('decap_command.circuit', r.path, fld(x.args[1], 'r1cs'), okv(ext('call:from_file', arg('a0'))))
            c.same('decap_command.witness', r.path, fld(x.args[1], 'witness'), okv(ext('call:to_field_elements', okv(ext('call:from_file', arg('a1'))))))
    r = cmd(c, 'decrypt_command')
    if r:
        x = the_call(c, 'decrypt_command', r, 'decap')
        if x is not None:
            c.same('decrypt_command.circuit', r.path, fld(x.args[1], 'r1cs'), okv(ext('call:from_file', arg('a0'))))
            c.same('decrypt_command.witness', r.path, fld(x.args[1], 'witness'), okv(ext('call:to_field_elements', okv(ext('call:from_file', arg('a1'))))))

# ---------------------------------------------------------------- C15, C16, C18, C27, C29: key encapsulation
CS = pl(ext('cs'), 'Some', 0)
INST, WIT = ext('instance_assignment', CS), ext('witness_assignment', CS)
READY = [isv(ext('cs'), 'Some'), isv(INST, 'Ok'), ge(ln(okv(INST)), I(1)), isv(WIT, 'Ok')]   # the constant one is always assigned
def elementwise(t, p):
    """equality of lists, one side of which is the list p, written as equality of the lengths and of every element"""
    bv = sym('i', True); m = {}
    for x in walk(t):
        if x.op == 'eq' and p in x.args:
            o = x.args[0] if x.args[1] is p else x.args[1]
            m[x] = and_(eq(ln(o), ln(p)), all_(bv, ln(p), eq(idx(o, bv), idx(p, bv))))
    return substany(t, m) if m else t
def each(t):
    """t with the bounds of its quantifiers simplified by its other conjuncts"""
    cs = conj(t)
    return and_(*[assume(x, [y for y in cs if y.op == 'ge0' and y is not x]) if x.op == 'all' else x for x in cs])
@prop('C15', 'the success condition of decapsulation implies that the circuit was synthesised and is satisfied, that every public input of the ciphertext equals the assignment, and (WASM) that the witness has one value per wire; verification compares length and every element')
def c15(c):
    q = c.one('zkenc_core', 'decap')
    if q:
        r = c.ev(q); ok = assume(r.ok, READY)
        pub = fld(arg('a1'), 'public_inputs'); full = seq(okv(INST), okv(WIT)); bv = sym('i', True)
        ok = each(elementwise(ok, pub))
        sy = [x for x in walk(ok) if x.op == 'ext' and x.args[0].startswith('synth')]
        for tag, want in (('synthesised', [ext('synth_ok', arg('a0'))]), ('satisfied', None), ('length', [ge(ln(full), add(ln(pub), I(1)))]),
                          ('public', [all_(bv, ln(pub), eq(idx(full, add(bv, I(1))), idx(pub, bv)))])):
            if want is None:
                c.true('decap.' + tag, q, any('satisfied' in str(x.args[0]) and implies(ok, x) for y in conj(ok) for x in walk(y) if x.op == 'ext'), 'succeeds without the constraint system being satisfied', ok.unk); continue
            for w in want: c.true('decap.' + tag, q, implies(ok, w) or impl_all(ok, w), 'success does not imply %s' % show(w, 0, 6)[:300], ok.unk)
    q = c.one('zkenc_core', 'verify_ciphertext')
    if q:
        r = c.ev(q); p = fld(arg('a0'), 'public_inputs'); e = arg('a1'); bv = sym('i', True)
        k = eq(ln(p), ln(e)); g = substany(assume(r.val, [k]), {ln(e): ln(p)})
        g = assume(elementwise(g, p), [k])
        c.same('verify.elements', q, g, all_(bv, ln(p), eq(idx(p, bv), idx(e, bv))))
        c.true('verify.length', q, implies(elementwise(r.val, p), k), 'accepts lists of different lengths', r.val.unk)
    r = wasm(c, 'wasm_decap')
    if r:
        h = okv(ext('call:parse_r1cs', arg('a0'))); v = okv(ext('call:parse_witness', arg('a1')))
        w = eq(ln(v), fld(fld(h, '0'), 'n_wires'))
        c.true('wasm_decap.length', r.path, implies(r.ok, w), 'succeeds for a witness of another length: ' + show(r.ok, 0, 5)[:300], r.ok.unk)
        x = the_call(c, 'wasm_decap', r, 'decap')
        if x is not None: c.true('wasm_decap.gated', r.path, implies(r.ok, isv(x, 'Ok')), 'succeeds although decapsulation failed', r.ok.unk)
def impl_all(a, w): return any(same(x, w) for x in conj(a))

def roles(r):
    """the random scalars of encapsulation by the role they play in the published key"""
    ek = fld(fld(r.val, '0'), 'encap_key'); out = {}
    for n in ('alpha_g1', 'beta_g2', 'delta_g2'):
        xs = [x for x in walk(fld(ek, n)) if x.op == 'rnd']
        out[n] = xs
    out['rest'] = sorted({x for x in walk(fld(ek, 'phi_delta_query_g1')) if x.op == 'rnd'} - {x for n in ('alpha_g1', 'beta_g2', 'delta_g2') for x in out[n]}, key=lambda x: x.id)
    return ek, out

@prop('C16', 'encapsulation draws five distinct random scalars from the generator it is given, one for each role, and every caller passes the operating system generator or one seeded with 32 bytes from it')
def c16(c):
    q = c.one('zkenc_core', 'encap')
    if q:
        r = c.ev(q); ek, ro = roles(r)
        for n in ('alpha_g1', 'beta_g2', 'delta_g2'):
            c.true('encap.' + n, q, len(ro[n]) == 1, 'depends on %d random scalars: %s' % (len(ro[n]), show(fld(ek, n), 0, 5)[:200]), fld(ek, n).unk)
        ph = fld(ek, 'phi_delta_query_g1')
        c.true('encap.rest', q, len(ro['rest']) == 2, 'r and x are %d distinct random scalars' % len(ro['rest']), ph.unk or any(x.op == 'mu' for x in walk(ph)) and not ro['rest'])
        al = [x for n in ('alpha_g1', 'beta_g2', 'delta_g2') for x in ro[n]]
        c.true('encap.distinct', q, len(set(al)) == len(al), 'one draw is used in two roles', ek.unk)
        for x in sorted(set(al) | set(ro['rest']), key=lambda x: x.id):
            good = len(x.args) >= 3 and x.args[2] is arg('a1') or (len(x.args) >= 3 and x.args[2].op == 'arg' and x.args[2].args[0] == 'a1')
            c.true('encap.source', q, good, 'drawn from %s' % show(x, 0, 5), x.unk)
    for n in ('encap_command', 'encrypt_command'):
        r = cmd(c, n)
        if not r: continue
        x = the_call(c, n, r, 'encap')
        if x is not None: c.true(n + '.rng.drawn', r.path, drawn_ok(r, x.args[2]), 'succeeds although the entropy request may have failed', r.ok.unk)
        if x is not None: c.true(n + '.rng', r.path, fresh_src(x.args[2]), 'the generator is %s' % show(x.args[2], 0, 5), x.args[2].unk)
    r = wasm(c, 'wasm_encap')
    if r:
        x = the_call(c, 'wasm_encap', r, 'encap')
        if x is not None: c.true('wasm_encap.rng.drawn', r.path, drawn_ok(r, x.args[2]), 'succeeds although the entropy request may have failed', r.ok.unk)
        if x is not None: c.true('wasm_encap.rng', r.path, fresh_src(x.args[2]), 'the generator is %s' % show(x.args[2], 0, 5), x.args[2].unk)

def the_cipher(c, k, r, x, data):
    """the ciphertext decapsulated is the checked deserialisation of exactly these bytes"""
    d = assume(x.args[2], [r.ok]); u = d.unk or r.ok.unk
    good = d.op == 'ext' and d.args[0] == 'deser' and d.args[2].op == 'str' and d.args[2].args[0].endswith('Ciphertext')
    c.true(k + '.ciphertext', r.path, good, 'decapsulates ' + show(d, 0, 5)[:300], u)
    if not good: return
    c.same(k + '.ciphertext.mode', r.path, d.args[1], S('compressed')); c.same(k + '.ciphertext.bytes', r.path, d.args[3], data)
    c.true(k + '.ciphertext.valid', r.path, implies(r.ok, ext('deser_ok', d)), 'succeeds although the ciphertext did not deserialise', u)

@prop('C18', 'both sides derive the key as the hash of the compressed pairing value that the scheme prescribes, over the whole assignment and every query element')
def c18(c):
    q = c.one('zkenc_core', 'encap')
    if q:
        r = c.ev(q); ct, key = fld(r.val, '0'), fld(r.val, '1'); k = READY[:3]
        b = c.spec('encap_secret', [fld(ct, 'encap_key'), fld(ct, 'public_inputs')])
        c.same('encap.key', q, assume(fld(key, '0'), k), assume(b.val, k))
        c.same('encap.public', q, assume(fld(ct, 'public_inputs'), k), sl(okv(INST), I(1), ln(okv(INST))))
    q = c.one('zkenc_core', 'decap')
    if q:
        r = c.ev(q)
        b = c.spec('decap_secret', [fld(arg('a1'), 'encap_key'), seq(okv(INST), okv(WIT))])
        c.same('decap.key', q, assume(fld(r.val, '0'), READY), assume(b.val, READY))
    r = wasm(c, 'wasm_decap')
    if r:
        x = the_call(c, 'wasm_decap', r, 'decap')
        if x is not None:
            c.same('wasm_decap.key', r.path, assume(r.val, [r.ok]), fld(okv(x), '0'))
            the_cipher(c, 'wasm_decap', r, x, arg('a2'))
    r = cmd(c, 'decap_command')
    if r:
        x = the_call(c, 'decap_command', r, 'decap')
        if x is not None:
            the_cipher(c, 'decap_command', r, x, file_(arg('a2')))
            for e in writes(r):
                if e[2][0] is arg('a3'): c.same('decap_command.key', r.path, assume(e[2][1], list(e[1])), ser(okv(x)))
    borrow(c, c05, ('.key',)); borrow(c, c06, ('.key.',))
    for ty in ('EncapResult', 'WasmEncapResult'):
        for cr in ('zkenc_js', 'zkenc_core'):
            for n in ('ciphertext', 'key'):
                for f in c.find(cr, n, ty):
                    g = assume(c.ev(f).val, [])
                    c.same('%s.%s' % (ty, n), f, g, fld(arg('a0'), n))
    for n in c.find('zkenc_core', 'as_bytes'): c.same('key.bytes', n, c.ev(n).val, fld(arg('a0'), '0'))
    for n in c.find('zkenc_core', 'new', 'Key'): c.same('key.new', n, fld(c.ev(n).val, '0'), arg('a0'))

@prop('C29', 'the query vectors equal the reference: each variable\'s QAP polynomials are the Lagrange-weighted sums of its coefficients in A, B and C, over a domain that fits all constraints, scaled as the scheme prescribes')
def c29(c):
    q = c.one('zkenc_core', 'evaluate_qap_polynomials_at_x')
    if q: c.same('qap', q, c.ev(q).val, c.spec('qap').val)
    q = c.one('zkenc_core', 'encap')
    if q:
        r = c.ev(q); ek, ro = roles(r)
        if all(len(ro[n]) == 1 for n in ('alpha_g1', 'beta_g2', 'delta_g2')) and len(ro['rest']) == 2:
            a, b = ro['rest']; abd = [ro[n][0] for n in ('alpha_g1', 'beta_g2', 'delta_g2')]
            cand = [c.spec('crs', [ext('cs')] + abd + [u, v]) for u, v in ((a, b), (b, a))]
            best = max(cand, key=lambda s: sum(same(fld(ek, n), fld(s.val, n)) for n, _ in s.val.args[1]))
            for n, _ in best.val.args[1]: c.same('encap.' + n, q, fld(ek, n), fld(best.val, n))
        else: c.add('encap.roles', q, 'undecided', 'the random scalars could not be matched to their roles')

@prop('C27', 'the value hashed into the encapsulated key contains a secret: after replacing what the ciphertext publishes, a random scalar remains')
def c27(c):
    q = c.one('zkenc_core', 'encap')
    if q:
        r = c.ev(q); ct, key = fld(r.val, '0'), assume(fld(fld(r.val, '1'), '0'), READY[:3])
        ek = fld(ct, 'encap_key')
        pub = {fld(ek, n): ext('published', S(n)) for n in ('alpha_g1', 'beta_g2', 'delta_g2', 'r_u_query_g1', 'r_v_query_g2', 'phi_delta_query_g1', 'h_query_g1')}
        b = c.spec('encap_secret', [raw('adt', 'EncapKey', tuple((n, ext('published', S(n))) for n in ('alpha_g1', 'beta_g2', 'delta_g2', 'r_u_query_g1', 'r_v_query_g2', 'phi_delta_query_g1', 'h_query_g1'))), okv(INST)])
        memo = {}
        def f(x):
            y = memo.get(x)
            if y is None: y = memo[x] = pub[x] if x in pub else rebuild(x, f)
            return y
        left = [x for x in walk(f(key)) if x.op == 'rnd']
        if key.unk: c.add('encap.secret', q, 'undecided')
        else:
            s = c.spec('encap_secret', [ek, fld(ct, 'public_inputs')])
            derivable = same(key, assume(s.val, READY[:3])) or not left
            c.true('encap.secret', q, not derivable, 'the key is a function of the published ciphertext alone')

# ---------------------------------------------------------------- C17, C19, C20, C30: the command line
def secret_in(t, secrets, seen, public=None):
    """t reveals a secret (other than through its length)"""
    if t in secrets: return t
    if t in seen: return None
    seen.add(t)
    if public is not None and public(t): return None
    if t.op == 'len': return None
    if TM.isbool(t) and t.op not in ('arg', 'ite'): return None
    if t.op == 'ite' and not TM.isbool(t): return secret_in(t.args[1], secrets, seen, public) or secret_in(t.args[2], secrets, seen, public)
    if t.op == 'ext' and t.args[0] in ('encrypt', 'decrypt_ok', 'encrypt_ok', 'ser_ok', 'wrote', 'cipher', 'keystream'): return None
    for k in kids(t):
        x = secret_in(k, secrets, seen, public)
        if x is not None: return x
    return None
def kids(t):
    import terms
    return list(terms._kids(t.args))

def outputs(r):
    """everything the function prints or puts into an error message"""
    o = [(e[2], e[3]) for e in r.m.events if e[0].split(':')[-1] in ('print', 'errmsg')]
    return o + [((pl(r.v, 'Err', 0),), None)]
def reveals(c, key, r, sec, public=None):
    bad = None; seen = set()
    for a, w in outputs(r):
        for x in a:
            if isinstance(x, T) and bad is None: bad = secret_in(x, sec, seen, public)
    c.true(key, r.path, bad is None, 'reveals %s' % (show(bad, 0, 5)[:300] if bad is not None else ''))
def number(t):
    """a length, count or tag of a file: no value of the witness"""
    k = lambda x: x if isinstance(x, int) else cst(x) if isinstance(x, T) else None
    if t.op == 'num' and (k(t.args[1]) or 99) <= 8: return True
    return t.op == 'sl' and k(t.args[2]) is not None and k(t.args[2]) <= 12
@prop('C17', 'no key, plaintext, witness value or private scalar flows into anything printed or into an error message; the key is written only to the key file')
def c17(c):
    for n, secret_files in (('encap_command', ()), ('decap_command', ('a1',)), ('encrypt_command', ('a3',)), ('decrypt_command', ('a1',))):
        r = cmd(c, n)
        if not r: continue
        sec = set()
        allt = [a for e in r.m.events for a in e[2] if isinstance(a, T)] + [r.ok, r.v]
        for t in allt:
            for x in exts(t, 'call:encap'): sec |= {fld(okv(x), '1'), fld(fld(okv(x), '1'), '0')}
            for x in exts(t, 'call:decap'): sec |= {okv(x), fld(okv(x), '0')}
            for x in exts(t, 'decrypt'): sec.add(x)
            for x in exts(t, 'call:to_field_elements'): sec.add(okv(x))
        sec |= {file_(arg(a)) for a in secret_files}
        bad = None
        for e in r.m.events:
            if e[0].endswith('fs.write') and n in ('encrypt_command',): bad = bad or secret_in(e[2][1], sec, set())
        c.true(n + '.written', r.path, bad is None, 'writes %s' % (show(bad, 0, 5)[:300] if bad is not None else ''))
        reveals(c, n + '.output', r, sec, lambda t: t.op == 'pl' and t.args[1] == 'Err')   # what a callee puts into its error is checked there
    for n in ('encap', 'decap'):
        q = c.one('zkenc_core', n)
        if not q: continue
        r = c.ev(q); sec = {x for e in r.m.events for a in e[2] if isinstance(a, T) for x in walk(a) if x.op == 'rnd'}
        v = okv(r.v); sec |= {fld(fld(v, '1'), '0') if n == 'encap' else fld(v, '0'), okv(WIT)}
        reveals(c, 'core.' + n, r, sec)
    for n in ('encrypt_gcm', 'decrypt_gcm', 'encrypt_ctr', 'decrypt_ctr'):
        q = cli(c, n)
        if not q: continue
        r = c.ev(q)
        reveals(c, n + '.output', r, {arg('a0'), arg('a1')} if n.startswith('enc') else {arg('a0'), okv(r.v)} | {x for a, _ in outputs(r) for t in a if isinstance(t, T) for x in exts(t, 'decrypt')})
    q = c.one('zkenc_cli', 'from_file', 'WitnessFile')
    if q: reveals(c, 'from_file.output', c.ev(q), {file_(arg('a0'))}, number)
    q = cli(c, 'to_field_elements')
    if q:
        w = fld(arg('a0'), 'assignments')
        reveals(c, 'to_field_elements.output', c.ev(q), {arg('a0'), w}, lambda t: t.op == 'fld' and t.args[1] in ('0', 'n_witness'))
    q = c.one('zkenc_js', 'parse_witness')
    if q:
        reveals(c, 'parse_witness.output', c.ev(q), {arg('a0')}, number)
        op = tuple(x for n in ('parse_witness', 'parse_r1cs') for x in c.find('zkenc_js', n)) + tuple(x for n in ('encap', 'decap') for x in c.find('zkenc_core', n))
        for n in ('wasm_encap', 'wasm_decap'):
            q = c.one('zkenc_js', n)
            if not q: continue
            r = c.ev(q, opaque=op); sec = {arg('a1')}
            for t in [x for a, _ in outputs(r) for x in a if isinstance(x, T)]:
                for x in exts(t, 'call:parse_witness'): sec.add(okv(x))
                for x in exts(t, 'call:encap'): sec |= {fld(okv(x), '1'), fld(fld(okv(x), '1'), '0')}
                for x in exts(t, 'call:decap'): sec |= {okv(x), fld(okv(x), '0')}
            reveals(c, n + '.output', r, sec, lambda t: t.op == 'ext' and t.args[0].startswith('call:'))

@prop('C19', 'each command writes exactly its documented outputs, only after the computation that produces them succeeded, and succeeds exactly if every write succeeded')
def c19(c):
    for n, outs, call in (('encap_command', ('a3', 'a4'), 'encap'), ('decap_command', ('a3',), 'decap'), ('encrypt_command', ('a4',), 'encap'), ('decrypt_command', ('a3',), 'decap')):
        r = cmd(c, n)
        if not r: continue
        x = the_call(c, n, r, call)
        ws = [e for e in r.events]
        uk = any(a.unk for e in ws for a in list(e[2]) + list(e[1]) if isinstance(a, T))
        opened = [e for e in ws if e[0] == 'fs.create' and any(f[0] == 'fs.write' and f[2][0] is e[2][0] for f in ws)]   # creating the file that is then written
        if x is not None:
            for e in opened: c.true('%s.create.%s' % (n, show(e[2][0])), r.path, implies(and_(*e[1]), isv(x, 'Ok')), 'truncates %s although %s may have failed' % (show(e[2][0]), call), and_(*e[1]).unk)
        ws = [e for e in ws if e not in opened]
        c.true(n + '.outputs', r.path, sorted(show(e[2][0]) if e[2] else '' for e in ws) == sorted(outs) and all(e[0] == 'fs.write' for e in ws), 'effects are %s' % [(e[0], show(e[2][0], 0, 4)) for e in ws if e[2] and isinstance(e[2][0], T)], uk)
        for e in ws:
            if e[0] != 'fs.write': continue
            pc = and_(*e[1]); p = show(e[2][0])
            if x is not None: c.true('%s.after.%s' % (n, p), r.path, implies(pc, isv(x, 'Ok')), 'writes %s although %s may have failed' % (p, call), pc.unk)
            c.true('%s.reported.%s' % (n, p), r.path, implies(r.ok, isv(ext('wrote', *e[2]), 'Ok')), 'reports success although writing %s failed' % p, r.ok.unk)
            c.true('%s.always.%s' % (n, p), r.path, implies(r.ok, pc), 'reports success without having written %s' % p, r.ok.unk)
        if ws:
            rest = [y for y in conj(r.ok) if not any(implies(and_(*e[1]), y) or y is isv(ext('wrote', *e[2]), 'Ok') for e in ws[-1:])]
            rest = [y for y in rest if not any(y is isv(ext('wrote', *e[2]), 'Ok') for e in ws)]
            last = and_(*ws[-1][1])
            rest = [y for y in rest if assume(y, list(ws[-1][1]) + [isv(ext('wrote', *e[2]), 'Ok') for e in ws]) is not TRUE]
            c.true(n + '.late', r.path, not rest, 'can fail after the outputs are written: %s' % [show(y, 0, 5)[:200] for y in rest], r.ok.unk)

CMDS = {'Encap': ('encap_command', ('circuit', 'sym', 'input', 'ciphertext', 'key')),
        'Decap': ('decap_command', ('circuit', 'witness', 'ciphertext', 'key')),
        'Encrypt': ('encrypt_command', ('circuit', 'sym', 'input', 'message', 'output', '!no_public_input')),
        'Decrypt': ('decrypt_command', ('circuit', 'witness', 'ciphertext', 'output'))}
def clivariants(c):
    for t in c.p.types.values() if isinstance(c.p.types, dict) else c.p.types:
        if t['path'].startswith('zkenc_cli') and t['path'].endswith('::Commands'): return t
    return None
@prop('C20', 'each subcommand calls its command function with its own options in order, and the process fails exactly if that command fails')
def c20(c):
    q = c.one('zkenc_cli', 'main'); t = clivariants(c)
    if not q or not t: return c.add('main', 'zkenc_cli', 'missing', 'no dispatcher')
    op = tuple(x for n, _ in CMDS.values() for x in c.find('zkenc_cli', n))
    r = c.ev(q, opaque=op)
    full = {v['name']: t['path'] + '::' + v['name'] for v in t['variants']}
    ts = [r.v] + [y for e in r.m.events for y in e[1]]; vs = set(full.values())
    cm = {x.args[0] for y in ts for x in walk(y) if x.op in ('isv', 'pl') and isinstance(x.args[1], str) and x.args[1] in vs}
    for v in t['variants']:
        for f in v['fields']:
            if f['ty'] != 'bool': continue
            at = ' '.join(f.get('attrs') or [])
            m = re.search(r'default_value(?:_t|s|s_t)?\s*=\s*"?\[?"?(\w+)', at)
            c.true('flag.%s.%s' % (v['name'], f['name']), t['path'], (not m or m.group(1) == 'false') and 'SetFalse' not in at and 'default_missing_value' not in at, 'the switch is not off by default and on when given: ' + at[:200])
    if len(cm) != 1: return c.add('main.dispatch', q, 'undecided', 'the parsed command was not found')
    cmdv = cm.pop()
    for v in t['variants']:
        n = v['name']
        if n not in CMDS: c.add('main.' + n, q, 'undecided', 'unknown subcommand'); continue
        f, fields = CMDS[n]; names = sorted(x['name'] for x in v['fields']); a = []
        for y in fields:
            k = y.lstrip('!')
            if k not in names: a = None; break
            z = pl(cmdv, full[n], names.index(k)); a.append(not_(z) if y[0] == '!' else z)
        if a is None: c.add('main.' + n, q, 'undecided', 'options %s' % names); continue
        got = assume(r.ok, [isv(cmdv, full[n])] + [not_(isv(cmdv, full[m])) for m in full if m != n])
        want = isv(ext('call:' + f, *a), 'Ok')
        c.same('main.' + n, q, got, want)

@prop('C30', 'within every subcommand, long and short option names are unique and do not collide with the built-in help and version options, and every documented option exists')
def c30(c):
    t = clivariants(c)
    if not t: return c.add('options', 'zkenc_cli', 'missing', 'no subcommand type')
    import re
    for v in t['variants']:
        longs, shorts = {'help': ['built in']}, {'h': ['built in']}
        for f in v['fields']:
            at = ' '.join(f.get('attrs') or [])
            m = re.search(r'#\[arg\((.*?)\)\]', at, re.S) or re.search(r'#\[clap\((.*?)\)\]', at, re.S)
            if not m: continue
            body = m.group(1)
            ml = re.search(r'\blong\b(?:\s*=\s*"([^"]*)")?', body)
            if ml: longs.setdefault(ml.group(1) or f['name'].replace('_', '-'), []).append(f['name'])
            ms = re.search(r"\bshort\b(?:\s*=\s*'(.)')?", body)
            if ms: shorts.setdefault(ms.group(1) or f['name'][0], []).append(f['name'])
        for kind, d in (('long', longs), ('short', shorts)):
            dup = {k: x for k, x in d.items() if len(x) > 1}
            c.true('%s.%s' % (v['name'], kind), t['path'], not dup, 'option name used twice: %s' % dup)
        want = {y.lstrip('!').replace('_', '-') for y in CMDS.get(v['name'], ('', ()))[1]}
        c.true(v['name'] + '.documented', t['path'], want <= set(longs), 'missing options %s' % sorted(want - set(longs)))

# ---------------------------------------------------------------- C21 .. C23: export and serialisation
@prop('C21', 'loading what was saved, and decoding what was encoded, normalises to the original value; no field is skipped or renamed asymmetrically')
def c21(c):
    for cr in ('zkenc_cli', 'zkenc_core'):
        for e, d, ty in (('to_json', 'from_json', 'SerializableCircuit'), ('to_bincode', 'from_bincode', 'SerializableCircuit'), ('to_json', 'from_json', 'SerializableWitness'), ('to_json', 'from_json', 'SerializableTestCase')):
            qe, qd = c.find(cr, e, ty), c.find(cr, d, ty)
            if not qe or not qd: continue
            a = c.ev(qe[0]); b = c.ev(qd[0], args=[a.val])
            ok = assume(rt(assume(b.ok, [a.ok])), [a.ok]); v = rt(assume(b.val, [a.ok]))
            k = '%s.%s.%s' % (cr, ty, d)
            if has_unk(ok, v): c.add(k, qd[0], 'undecided', 'outside the analysed language'); continue
            c.same(k, qd[0], v, arg('a0')); c.true(k + '.accepts', qd[0], ok is TRUE, 'decoding additionally requires %s' % show(ok, 0, 5)[:200])
        for s, l, ty in (('save_json', 'load_json', 'SerializableCircuit'), ('save_bincode', 'load_bincode', 'SerializableCircuit'), ('save', 'load', 'SerializableWitness'), ('save_json', 'load_json', 'SerializableWitness'), ('save', 'load', 'SerializableTestCase'), ('save_json', 'load_json', 'SerializableTestCase')):
            qs, ql = c.find(cr, s, ty), c.find(cr, l, ty)
            if not qs or not ql: continue
            a = c.ev(qs[0]); b = c.ev(ql[0]); k = '%s.%s.%s' % (cr, ty, l)
            ws = [e for e in a.events if e[0] == 'fs.write']
            if len(ws) != 1 or a.ok.unk or b.val.unk: c.add(k, ql[0], 'undecided' if a.ok.unk or b.val.unk or not ws else 'violated', '%d writes' % len(ws)); continue
            F = fileof(c, ql[0]); path = ws[0][2][0]
            sub_ = lambda x: rt(substany(x, {F: ws[0][2][1]}))
            c.same(k, ql[0], sub_(assume(b.val, [b.ok])), arg('a0'))
            ok = [y for y in conj(assume(sub_(b.ok), [a.ok])) if not (y.op == 'ext' and y.args[0] == 'canread')]
            c.true(k + '.accepts', ql[0], not ok, 'loading additionally requires %s' % [show(y, 0, 5) for y in ok])
            c.true(k + '.path', qs[0], path.op == 'arg' and path.args[0] == 'a1', 'writes to %s' % show(path, 0, 4))
            c.true(k + '.reported', qs[0], implies(a.ok, isv(ext('wrote', *ws[0][2]), 'Ok')), 'saving succeeds although the write failed')
    serde_rules(c)
def serde_rules(c):
    import re
    for t in c.p.types.values() if isinstance(c.p.types, dict) else c.p.types:
        if '::serializable::' not in t['path']: continue
        items = [('', t.get('attrs') or [])]; tys = {}
        for f in t.get('fields') or []: items.append((f['name'], f.get('attrs') or [])); tys[f['name']] = f['ty']
        for v in t.get('variants') or []:
            items.append((v['name'], v.get('attrs') or []))
            for f in v.get('fields') or []: items.append((v['name'] + '.' + f['name'], f.get('attrs') or []))
        for n, at in items:
            for a in at:
                m = re.search(r'#\[serde\((.*)\)\]', a, re.S)
                if not m: continue
                b = m.group(1); k = 'serde.%s.%s' % ('::'.join(t['path'].split('::')[-2:]), n)
                ms = re.search(r'\bskip(_serializing|_deserializing|_serializing_if)?\b', b)
                asym = re.search(r'rename\s*\(', b)
                if re.search(r'\bdefault\b', b) and not tys.get(n, '').startswith('std::option::Option') and not ms:
                    c.add(k, t['path'], 'violated', 'a missing field is replaced by a default: ' + a)
                elif ms or re.search(r'\b(flatten|untagged)\b', b) or asym and not symmetric(b):
                    c.add(k, t['path'], 'violated', 'attribute breaks the round trip: ' + a)
                elif re.search(r'\b(with|serialize_with|deserialize_with|from|into|try_from|remote|getter)\b', b): c.add(k, t['path'], 'undecided', a)
                else: c.add(k, t['path'], 'holds')
def symmetric(b):
    import re
    s, d = re.search(r'serialize\s*=\s*"([^"]*)"', b), re.search(r'deserialize\s*=\s*"([^"]*)"', b)
    return bool(s and d and s.group(1) == d.group(1))

@prop('C22', 'the exported circuit equals the reference export field by field, and the exchange types of the command line and the core library have the same fields, types and encodings')
def c22(c):
    q = cli(c, 'to_serializable')
    if q: result(c, 'export', c.ev(q), c.spec('export'))
    ts = {}
    for t in c.p.types.values() if isinstance(c.p.types, dict) else c.p.types:
        p = t['path'].split('::')
        if len(p) == 3 and p[1] == 'serializable': ts.setdefault(p[2], {})[p[0]] = t
    def sig(t):
        f = lambda x: (x['name'], x['ty'].replace('zkenc_cli::', '').replace('zkenc_core::', ''), tuple(a for a in (x.get('attrs') or []) if 'serde' in a))
        return ([f(x) for x in t.get('fields') or []], [(v['name'], [f(x) for x in v.get('fields') or []]) for v in t.get('variants') or []], [a for a in t.get('attrs') or [] if 'serde(' in a])
    for n, d in sorted(ts.items()):
        if 'zkenc_cli' in d and 'zkenc_core' in d:
            c.true('schema.' + n, d['zkenc_cli']['path'], sig(d['zkenc_cli']) == sig(d['zkenc_core']), 'the two definitions differ: %s / %s' % (sig(d['zkenc_cli']), sig(d['zkenc_core'])))

@prop('C23', 'the flattened inputs equal the reference: every leaf of every array in order as its decimal or text form, booleans as 0 and 1, and exactly the top-level keys')
def c23(c):
    q = cli(c, 'parse_inputs')
    if q:
        F = fileof(c, q)
        result(c, 'inputs', c.ev(q), c.spec('inputs_json', [F]), [ext('canread', F.args[1]), ext('utf8', F)])

@prop('C24', 'the condition under which the WASM module is known to be initialised is implied by the path condition of every call of one of its functions')
def c24(c): pass
@prop('C25', 'witness calculation accepts exactly the inputs that the reference accepts and hands the same words to the circuit')
def c25(c): pass

@prop('C26', 'no unsafe code, process spawning, network access or destructive file operation is reachable, and the core library and the parsers have no effects besides reading the file they are given')
def c26(c):
    pats = ('std::process::Command', 'std::net::', 'std::os::', 'libc::')
    for cr in ('zkenc_core', 'zkenc_cli', 'zkenc_js'):
        at = c.p.crates.get(cr, {}).get('crate_attrs') or []
        n = bad = 0
        for q, b in sorted(c.p.fns.items()):
            if not q.startswith(cr + '::') or '::tests::' in q: continue
            n += 1; c.fns.add(q)
            for x in calls_in(b):
                if x.startswith(pats) or x in ('std::fs::remove_file', 'std::fs::remove_dir_all', 'std::fs::remove_dir', 'std::fs::rename', 'std::fs::set_permissions', 'std::process::exit', 'std::process::abort', 'std::env::set_var'):
                    bad += 1; c.add('%s.effect.%s' % (q, x), q, 'violated', 'calls ' + x)
            if b.get('unsafe') or has_unsafe(b): bad += 1; c.add(q + '.unsafe', q, 'violated', 'unsafe code')
        c.add(cr + '.effects', cr, 'holds' if not bad else 'violated', '%d functions scanned' % n)
    at = c.p.crates.get('zkenc_core', {}).get('crate_attrs') or []
    c.true('core.forbid', 'zkenc_core', any(re.search(r'lint_name: "unsafe_code"[^{}]*kind: (Forbid|Deny)', str(a)) for a in at), 'the core library no longer forbids unsafe code')
    for cr, n, t in ENTRY:
        q = c.one(cr, n, t)
        if q: c.true('pure.%s.%s' % (n, t or ''), q, not c.ev(q).events, 'has effects %s' % [e[0] for e in c.ev(q).events])
    for n in ('encap', 'decap', 'verify_ciphertext', 'evaluate_qap_polynomials_at_x'):
        q = c.one('zkenc_core', n)
        if q:
            evs = [e[0] for e in c.ev(q).events if e[0].startswith(('fs.', 'loop:fs.', 'net', 'proc'))]
            c.true('pure.core.' + n, q, not evs, 'has effects %s' % evs)
def calls_in(b):
    out = []
    def f(x):
        if isinstance(x, dict):
            for k in ('fn', 'path', 'def', 'callee'):
                if isinstance(x.get(k), str): out.append(x[k])
            for v in x.values(): f(v)
        elif isinstance(x, list):
            for v in x: f(v)
    f(b); return out
def has_unsafe(b):
    if isinstance(b, dict): return b.get('unsafe') is True or any(has_unsafe(v) for v in b.values())
    if isinstance(b, list): return any(has_unsafe(v) for v in b)
    return False


# the obligations about the TypeScript package
import props_ts
JS = props_ts.JS
