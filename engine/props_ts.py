"""The obligations about the TypeScript package, added to the properties of props.py."""
import collections, props as _p
globals().update({k: v for k, v in vars(_p).items() if not k.startswith('__')})
JS = {}
def ts(*pids):
    def d(f):
        def g(c):
            if c.load_ts() is None: return c.add('ts.frontend', 'zkenc-js', 'undecided', '%s' % c.front.get('ts'))
            f(c)
        for p in pids:
            JS.setdefault(p, []).append(g)
        return f
    return d
def run_(c, l):
    for g in l:
        try: g(c)
        except GaveUp: pass
        except Exception:
            import traceback
            if os.environ.get('ZK_DEBUG'): raise
            c.add('analysis', 'props', 'undecided', traceback.format_exc()[-600:])

# ---------------------------------------------------------------- comparison
def noinit(t):
    """the initialisation of the WASM module succeeded (C24 decides on its own that it comes first)"""
    memo = {}
    def f(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            if r.op == 'isv' and r.args[0].op == 'ext' and (r.args[0].args[0] == 'awaited' or r.args[0].args[0] in ('call:init', 'call:default', 'call:initSync')): r = TRUE
            memo[x] = r
        return r
    return f(t)
def rename(t, names):
    memo = {}
    def f(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            if r.op == 'ext' and r.args[0] in names: r = ext(names[r.args[0]], *r.args[1:])
            memo[x] = r
        return r
    return f(t)
REC = 'undecided', 'recursion of a different shape'
def lostexit(got, want):
    """the two sides differ in whether a loop stops early, and got has no construct that could make up for it"""
    a, b = loopsig(got), loopsig(want)
    return a - {('brkn', 0)} == b - {('brkn', 0)} and not TM.ops(got) - TM.ops(want) - {'brkn', 'not', 'and', 'or', 'ite', 'site', 'seq', 'one', 'eq', 'eq0', 'ge0', 'pos', 'maxof', 'entries', 'len', 'idx', 'inf'}
def dropped(got, want):
    """got is the condition want with some of its conjuncts missing, or never true"""
    if want.unk or want in (TRUE, FALSE) or not isbool(want): return False
    if got is FALSE: return True
    a, b = ([] if got is TRUE else conj(got)), conj(want)
    return len(a) < len(b) and all(any(same(x, y) for y in b) for x in a)
def samerec(a, b):
    """the same recursive functions on both sides"""
    x, y = ({t for t in walk(v) if t.op == 'recdef'} for v in (a, b))
    return bool(x) and all(any(same(p, q) for q in y) for p in x) and all(any(same(p, q) for p in x) for q in y)
class Cmp:
    """one function of the package against its reference: success condition, result, calls of the WASM module"""
    def __init__(s, a, b, names=None):
        s.a, s.b = a, b
        va = noinit(a.v); vb = b.v
        if names: va = rename(va, names)
        s.oa, s.ob = isv(va, 'Ok'), isv(vb, 'Ok')
        s.xa, s.xb = assume(pl(va, 'Ok', 0), [s.oa]), assume(pl(vb, 'Ok', 0), [s.ob])
        f = lambda r: [raw('one', evterm((e[0], tuple(noinit(x) for x in e[1]), [x if isinstance(x, tuple) else noinit(x) for x in e[2][:-1]]))) for e in r.events if e[0].split(':')[-1] == 'wasm']
        s.ea, s.eb = raw('seq', *f(a)), raw('seq', *f(b))
        if names: s.ea, s.eb = rename(s.ea, names), rename(s.eb, {})
    def verdict(s, got, want, small=False):
        if same(got, want): return 'holds', ''
        if got.unk: return 'undecided', 'the construct is outside the analysed language'
        const = dropped(got, want)
        if not const and (recsig(got) or recsig(want)) and not samerec(got, want): return REC
        pre = ''
        if small is None:
            # unrolled recursion on both sides: the same loops, or a difference on small sizes
            n = [collections.Counter((x.op, len(x.args[1]) if x.op == 'mu' else 0) for x in walk(t) if x.op in ('mu', 'brkn', 'G', 'all')) for t in (got, want)]
            small = n[0] != n[1] or any(TM.smallcmp(got, want, i) == 'same' for i in (1, 2))
        if small or not const and loopsig(got) != loopsig(want) and not lostexit(got, want):
            k = TM.differs(got, want)
            if k is None: return 'undecided', 'recurrences of a different shape %s / %s' % (loopsig(got), loopsig(want))
            got, want = TM.specialise(got, want, k); pre = 'where all sizes are %d: ' % k
        d = firstdiff(got, want)
        return 'violated', pre + '; '.join('%s: is %s, must be %s' % (p or 'value', show(a, 0, 6)[:400], show(b, 0, 6)[:400]) for p, a, b in d[:3])
    def parts(s, what):
        for w in what:
            if w == 'ok': yield 'accepts', s.oa, s.ob
            elif w == 'val':
                if s.xb.op == 'adt' and s.xa.op == 'adt' and len(s.xb.args[1]) > 1:
                    for n, _ in s.xb.args[1]: yield n, fld(s.xa, n), fld(s.xb, n)
                else: yield 'value', s.xa, s.xb
            elif w == 'wasm': yield 'wasm', s.ea, s.eb
def tcmp(c, key, name, ref, what=('ok', 'val'), args=None, rargs=None, alt=None, box=None, ref2=None):
    """name against ref. alt: names of callees in both that may be compared as black boxes when the inlined forms do not decide"""
    r = {}; norec = set()
    rank = {'holds': 0, 'undecided': 1, 'violated': 2}
    def one(op, ref_op, names, shape=None):
        k = Cmp(c.evts(name, args, opaque=op, shape=shape), c.spects(ref, rargs if rargs is not None else args, opaque=ref_op, shape=shape), names)
        for n, g, w in k.parts(what):
            if shape is not None: g, w = (rename(x, {'objentries': 'objentries+'}) for x in (g, w))
            v = k.verdict(g, w, shape is not None and (n in norec or None)); o = r.get(n)
            if shape is None and (g.unk or not recsig(g)): norec.add(n)
            if shape is not None:
                # recursion of another form: decided on inputs nested at most `shape` deep, where it unrolls completely
                if o[0] == 'undecided' and v[0] == 'violated': r[n] = v[0], 'on inputs nested at most %d deep: %s' % (shape, v[1])
            elif o is None or v[0] == 'holds': r[n] = v
        return k
    k = one((), (), None)
    if any(v == REC for v in r.values()) or any(r[n][0] == 'undecided' and recsig(w) for n, _, w in k.parts(what)): one((), (), None, 2)
    if alt and any(v[0] != 'holds' for v in r.values()):
        one(tuple(alt), tuple(alt.values()), {'call:' + a: 'call:' + b for a, b in alt.items()})
    if ref2 and any(v[0] != 'holds' for v in r.values()):
        # another reading that the property leaves open
        k2 = Cmp(c.evts(name, args), c.spects(ref2, rargs if rargs is not None else args))
        v2 = [k2.verdict(g, w) for _, g, w in k2.parts(what)]
        if all(v[0] == 'holds' for v in v2): r = {n: ('holds', '') for n in r}
    for box, last in (box or ()):
        if not any(v[0] == 'undecided' for v in r.values()): break
        # the same calls of these functions on both sides (except for `last`, compared by its arguments): the difference lies in what is done with their results
        b = Cmp(c.evts(name, args, opaque=tuple(box)), c.spects(ref, rargs if rargs is not None else args, opaque=tuple(box.values())), {'call:' + x: 'call:' + y for x, y in box.items()})
        calls = lambda t: {x for x in walk(t) if x.op == 'ext' and x.args[0] in {'call:' + y for y in box.values() if y != last}}
        for n, g, w in b.parts(what):
            v = b.verdict(g, w)
            if v[0] == 'violated' and r[n][0] == 'undecided' and calls(g) and all(any(same(x, y) for y in calls(w)) for x in calls(g)): r[n] = v
    for n, (st, d) in r.items(): c.add('%s.%s' % (key, n), k.a.path, st, d)

KEY, DATA = arg('a0', 'bytes'), arg('a1', 'bytes')
# ---------------------------------------------------------------- symmetric encryption
def exported(c, *names):
    """what the package exports under these names"""
    for n in names:
        d = c.tsfn(n)
        try: r = c.evts('zzExports')
        except GaveUp: return
        v = fld(r.val, n)
        k = 'ts.exports.' + n
        if d is None or v.op != 'fnv': c.add(k, r.path, 'undecided', 'exports %s' % show(v, 0, 4)[:100])
        else: c.true(k, d[0], v.args[0] == d[1]['d'], 'the package exports %s under the name %s' % (c.ts.decls[v.args[0]][1]['name'], n))
@ts('C01')
def c01(c):
    r = c.evts('aesGcmDecrypt')
    gcm_dec(c, 'ts.aesGcmDecrypt', r.path, r.val, r.ok, KEY, DATA)
    r = c.evts('decrypt'); ok, v = noinit(r.ok), noinit(r.val)
    if has_unk(ok, v): c.add('ts.decrypt', r.path, 'undecided', 'outside the analysed language')
    else:
        good = v.op == 'ext' and v.args[0] == 'decrypt' and implies(ok, ext('decrypt_ok', *v.args[1:]))
        c.true('ts.decrypt', r.path, good, 'returns %s' % show(v, 0, 5)[:300])

@ts('C02')
def c02(c):
    for n in ('aesGcmEncrypt', 'encrypt'):
        r = c.evts(n); v = noinit(r.val)
        if v.unk: c.add('ts.%s.nonce' % n, r.path, 'undecided', 'outside the analysed language'); continue
        used = set(exts(v, 'encrypt'))
        c.true('ts.%s.used' % n, r.path, bool(used), 'no cipher invocation found in %s' % show(v, 0, 5)[:200])
        for e in used:
            x = e.args[2]
            c.true('ts.%s.fresh' % n, r.path, x.op == 'rnd' and cst(x.args[1]) == 12 and fresh_src(x.args[2]), 'nonce is %s' % show(x, 0, 5)[:300])
            if n == 'aesGcmEncrypt': c.true('ts.%s.stored' % n, r.path, same(sl(v, I(0), I(12)), x), 'the stored prefix is %s' % show(sl(v, I(0), I(12)), 0, 5)[:300])

@ts('C03')
def c03(c):
    tcmp(c, 'ts.seal', 'aesGcmEncrypt', 'seal')
    tcmp(c, 'ts.open', 'aesGcmDecrypt', 'open')
    e = c.evts('aesGcmEncrypt'); k = eq(ln(KEY), I(32))
    d = c.evts('aesGcmDecrypt', [None, e.val])
    ok = assume(rt(assume(d.ok, [e.ok, k])), [e.ok, k]); v = rt(assume(d.val, [e.ok, k]))
    if has_unk(ok, v): return c.add('ts.roundtrip', d.path, 'undecided')
    c.same('ts.roundtrip', d.path, v, DATA)
    rest = [x for x in conj(ok) if not (x.op == 'ext' and x.args[0] in ('encrypt_ok', 'importkey_ok'))]
    c.true('ts.roundtrip.accepts', d.path, not rest, 'decryption of an encryption additionally requires %s' % [show(x, 0, 5)[:200] for x in rest])

@ts('C04')
def c04(c):
    for n in ('aesGcmEncrypt', 'aesGcmDecrypt'):
        r = c.evts(n)
        if implies(r.ok, eq(ln(KEY), I(32))): c.add('ts.' + n, r.path, 'holds')
        else: c.add('ts.' + n, r.path, 'undecided' if r.ok.unk else 'violated', 'succeeds under %s' % show(r.ok, 0, 6)[:300])

# ---------------------------------------------------------------- the container
ENC = {'encap': 'encapsulate', 'aesGcmEncrypt': 'seal'}
DEC = {'decap': 'decapsulate', 'aesGcmDecrypt': 'open'}
@ts('C05')
def c05(c):
    exported(c, 'encrypt')
    for tag, o, b in (('default', UNDEF, TRUE), ('public', TRUE, TRUE), ('nopublic', FALSE, FALSE)):
        op = UNDEF if o is UNDEF else raw('adt', 'obj', (('includePublicInput', o),))
        tcmp(c, 'ts.encrypt.' + tag, 'encrypt', 'encryptWith', ('ok', 'val'), [None, None, None, op], [None, None, None, b], ENC)
@ts('C06')
def c06(c):
    exported(c, 'decrypt', 'getPublicInput')
    tcmp(c, 'ts.decrypt', 'decrypt', 'decryptWith', ('ok', 'val'), alt=DEC)
    tcmp(c, 'ts.getPublicInput', 'getPublicInput', 'publicInput')
@ts('C08')
def c08(c):
    tcmp(c, 'ts.decrypt', 'decrypt', 'decryptWith', ('ok',), alt=DEC)
    tcmp(c, 'ts.getPublicInput', 'getPublicInput', 'publicInput', ('ok',))

# ---------------------------------------------------------------- symbols, inputs, witness files
@ts('C09')
def c09(c):
    tcmp(c, 'ts.serializeWitnessSimple', 'serializeWitnessSimple', 'wtns')
    tcmp(c, 'ts.calculateWitness', 'calculateWitness', 'witness', ('val',))
@ts('C10')
def c10(c): tcmp(c, 'ts.parseSymFile', 'parseSymFile', 'wires'); exported(c, 'parseSymFile')
@ts('C11')
def c11(c): tcmp(c, 'ts.getInputSignals', 'getInputSignals', 'select'); exported(c, 'getInputSignals')
ASG = {'serializeWitnessSimple': 'wtns', 'mapInputsToWires': 'assign', 'getInputSignals': 'select', 'parseSymFile': 'wires'}
ASG0 = {k: v for k, v in ASG.items() if k != 'serializeWitnessSimple'}
@ts('C12')
def c12(c):
    exported(c, 'mapInputsToWires', 'encap')
    tcmp(c, 'ts.mapInputsToWires', 'mapInputsToWires', 'assign', ref2='assignAny')
    tcmp(c, 'ts.encap', 'encap', 'encapsulate', ('ok', 'val', 'wasm'), alt=ASG, box=[(ASG0, None), (ASG, 'wtns')])
@ts('C13')
def c13(c):
    tcmp(c, 'ts.mapInputsToWires', 'mapInputsToWires', 'assign', ref2='assignAny')
    tcmp(c, 'ts.serializeWitnessSimple', 'serializeWitnessSimple', 'wtns')
    tcmp(c, 'ts.encap', 'encap', 'encapsulate', ('ok', 'wasm'), alt=ASG, box=[(ASG0, None), (ASG, 'wtns')])
@ts('C25')
def c25(c):
    tcmp(c, 'ts.calculateWitness', 'calculateWitness', 'witness')
    tcmp(c, 'ts.calculateWitnessArray', 'calculateWitnessArray', 'witnessArray')
    tcmp(c, 'ts.getCircuitInfo', 'getCircuitInfo', 'info')
    tcmp(c, 'ts.decap', 'decap', 'decapsulate', ('ok', 'val', 'wasm'), alt={'calculateWitness': 'witness'})
    tcmp(c, 'ts.calculateBinWitness', 'zzBinWitness', 'binWitness')
    tcmp(c, 'ts.sanityCheck', 'zzSanity', 'witnessChecked')
    tcmp(c, 'ts.sanityCheck.option', 'zzOption', 'witnessChecked')
    tcmp(c, 'ts.circom_version', 'zzVersion', 'version')
    tcmp(c, 'ts.reuse', 'zzTwice', 'witnessTwice')
    exported(c, 'decap')
    r = c.evts('calculateWitness')
    for n, _ in r.m.RUNTIME:
        if n not in r.m.imps: c.add('ts.runtime.' + n, r.path, 'undecided', 'no instantiation of the circuit found'); continue
        v = r.m.imps[n]
        c.true('ts.runtime.' + n, r.path, v is not None, 'the circuit imports %s, which is not provided' % n)
        if n == 'exceptionHandler' and v is not None:
            ok = isv(v, 'Ok')
            c.true('ts.runtime.aborts', r.path, ok is FALSE, 'an exception raised by the circuit is ignored where %s' % show(ok, 0, 6)[:300], ok.unk)

# ---------------------------------------------------------------- secrets
@ts('C17')
def c17(c):
    for n, sec in (('aesGcmEncrypt', (KEY, DATA)), ('aesGcmDecrypt', (KEY,)), ('encap', ()), ('decap', ()), ('encrypt', (arg('a2', 'bytes'),)), ('decrypt', ())):
        r = c.evts(n); s = set(sec)
        out = [(e[2], e[4] if len(e) > 4 else r.path) for e in r.m.events if e[0] in ('print', 'loop:print')] + [((t[1],), t[2]) for t in r.m.throws]
        for t in [r.v] + [x for o, _ in out for x in o if isinstance(x, T)]:
            s |= {x for x in walk(t) if x.op == 'ext' and x.args[0] == 'decrypt'}
            for x in exts(t, 'call:wasm_encap') : s.add(fld(okv(x), 'key'))
            for x in exts(t, 'call:wasm_decap'): s.add(okv(x))
        if n in ('decap', 'decrypt'): s |= {y for o, _ in out for x in o if isinstance(x, T) for y in walk(x) if y.op == 'fld' and y.args[1] == '1' and any(z.op == 'ext' and z.args[0] == 'objentries' for z in walk(y))}
        bad = None
        for o, w in out:
            for x in o:
                if isinstance(x, T): bad = bad or secret_in(x, s, set())
        c.true('ts.%s.output' % n, r.path, bad is None, 'reveals %s' % (show(bad, 0, 5)[:300] if bad is not None else ''))

# ---------------------------------------------------------------- effects
NET = {'fetch', 'XMLHttpRequest', 'WebSocket', 'EventSource', 'WebTransport', 'RTCPeerConnection', 'BroadcastChannel', 'Worker', 'SharedWorker', 'importScripts', 'eval', 'Function', 'require',
       'localStorage', 'sessionStorage', 'indexedDB', 'caches', 'document', 'Deno', 'Bun'}
NETMOD = {'child_process', 'net', 'http', 'https', 'http2', 'tls', 'dgram', 'dns', 'worker_threads', 'cluster', 'fs', 'fs/promises', 'vm', 'inspector', 'undici', 'ws', 'axios', 'node-fetch'}
PROC = {'exit', 'abort', 'kill', 'chdir', 'setuid', 'reallyExit', 'emitWarning'} - {'emitWarning'}
@ts('C26')
def c26(c):
    n = bad = 0
    for f, name, fn, cls in sorted(c.ts.fns(), key=lambda x: (x[0], x[1])):
        if f.endswith('.js') or f.startswith('zz_'): continue
        n += 1; w = '%s::%s' % (f, name); c.fns.add('ts:' + w)
        for x in effects(fn): bad += 1; c.add('ts.%s.effect' % name, w, 'violated', x)
    for f, mod in sorted(c.ts.files.items()):
        if f.endswith('.js') or f.startswith('zz_'): continue
        for s in mod['ss']:
            if s['k'] not in ('fndecl', 'classdecl'):
                for x in effects(s): bad += 1; c.add('ts.%s.effect' % f, f, 'violated', 'when the module is loaded: ' + x)
    c.add('ts.effects', 'zkenc-js', 'holds' if not bad else 'violated', '%d functions scanned' % n)
    for n in ('aesGcmEncrypt', 'aesGcmDecrypt', 'encap', 'decap', 'encrypt', 'decrypt', 'getPublicInput', 'parseSymFile', 'getInputSignals', 'mapInputsToWires'):
        try: unmodified(c, n)
        except GaveUp: pass
def unmodified(c, n):
    r = c.evts(n)
    if r.st.dead: return
    for k, v in r.st.store.items():
        if isinstance(k, tuple) and k[0] == 'mut' and k[1].op == 'arg': c.true('ts.%s.keeps' % n, r.path, v is k[1], 'the caller\'s buffer %s becomes %s' % (show(k[1]), show(v, 0, 4)[:200]), v.unk)
def effects(n):
    if isinstance(n, list):
        for x in n: yield from effects(x)
    elif isinstance(n, dict):
        k = n.get('k')
        if k == 'glob' and n['name'] in NET: yield 'uses ' + n['name']
        elif k == 'ext' and n['mod'].replace('node:', '') in NETMOD: yield 'imports from ' + n['mod']
        elif k == 'import' and n['e'].get('k') == 'str' and n['e']['v'].replace('node:', '') in NETMOD: yield 'imports ' + n['e']['v']
        elif k == 'mem' and n['o'].get('k') == 'glob':
            o, m = n['o']['name'], n['name']
            if o in ('globalThis', 'window', 'self', 'global') and m in NET or o == 'navigator' and m in ('sendBeacon', 'serviceWorker', 'clipboard') or o == 'process' and m in PROC: yield 'uses %s.%s' % (o, m)
        elif k in ('asg', 'upd'):
            a = n['a']
            if a['k'] in ('mem', 'idx'):
                while a['k'] in ('mem', 'idx', 'as', 'paren', 'nonnull'): a = a['o'] if a['k'] in ('mem', 'idx') else a['e']
                if a['k'] == 'glob': yield 'modifies the global %s' % a['name']
        for x in n.values():
            if isinstance(x, (dict, list)): yield from effects(x)

# ---------------------------------------------------------------- the key reaches the caller unchanged
@ts('C18')
def c18(c):
    tcmp(c, 'ts.encap', 'encap', 'encapsulate', ('val',), alt=ASG, box=[(ASG0, None), (ASG, 'wtns')])
    tcmp(c, 'ts.decap', 'decap', 'decapsulate', ('val',), alt={'calculateWitness': 'witness'})
    c.obl[:] = [o for o in c.obl if o['key'] != 'ts.encap.ciphertext']

# ---------------------------------------------------------------- initialisation of the WASM module
@ts('C24')
def c24(c):
    api = {e['d'] for f, m in c.ts.files.items() if f.split('/')[-1] == 'index.ts' for e in m['exports'].values() if e.get('d')}
    for f, name, fn, cls in sorted(c.ts.fns(), key=lambda x: (x[0], x[1])):
        if f.endswith('.js') or cls: continue
        if api and fn.get('d') not in api: continue     # reached only through the package's exports
        try: r = c.evts(name)
        except GaveUp: continue
        init(c, 'ts.' + name, r)
def init(c, key, r):
    m = r.m
    calls = [e for e in m.events if e[0].split(':')[-1] == 'wasm']
    if not calls: return
    # invariants of the module variables: a true flag, or a settled promise, means that initialisation has completed
    done = set(); inv = {}; i = 0
    decl = {t[4]['name']: t[1] for t in c.ts.decls.values() if t[0] == 'var'}
    def bad(name, why, u=False): inv.setdefault(name, []).append((why, u))
    while i < len(m.gwrites):
        name, pc, v, g = m.gwrites[i]; i += 1
        if any(x.unk for x in pc) or v.unk: bad(name, 'is assigned outside the analysed language', True); continue
        guaranteed(c, m, name, pc, v, g, bad)
    used = {x.args[0][2:] for e in calls for y in list(e[1]) + [e[2][-1]] if isinstance(y, T) for x in walk(y) if x.op == 'arg' and x.args[0].startswith('g:')} - {'initialised'}
    for n in sorted(used):
        d = decl.get(n)
        if d is not None and not falsy(d['init']): bad(n, 'does not start out unset')
    for e in calls:
        pc = list(e[1]); g = e[2][-1]; G_ = arg('g:initialised', 'bool')
        k = '%s.%s' % (key, e[2][0].args[0] if isinstance(e[2][0], T) and e[2][0].op == 'str' else 'wasm')
        hyp = []
        for n in used:
            if not inv.get(n): hyp.append(or_(not_(arg('g:' + n, 'bool')), G_))
        flags = [h for h in hyp]
        ok = implies(and_(*pc, *flags), g)
        relevant = [w for n in used for w in inv.get(n, ())]
        w = '%s:%s' % (r.path, e[3][0] if len(e) > 3 and isinstance(e[3], tuple) else '')
        if ok and not relevant: c.add(k, r.path, 'holds')
        elif g.unk or any(x.unk for x in pc) or any(u for _, u in relevant): c.add(k, r.path, 'undecided', 'outside the analysed language')
        else: c.add(k, r.path, 'violated', 'called although initialisation may not have completed: %s%s' % (show(g, 0, 6)[:300], ''.join('; ' + x for x, _ in relevant)))
def falsy(n):
    if n is None or n['k'] in ('null', 'undef'): return True
    if n['k'] in ('bool', 'str'): return not n['v']
    if n['k'] == 'num': return n.get('int') == '0'
    if n['k'] in ('as', 'paren', 'nonnull') and isinstance(n.get('e'), dict): return falsy(n['e'])
    return False
def guaranteed(c, m, name, pc, v, g, bad):
    """the value assigned keeps the variable's meaning"""
    for a in m.alts(v):
        if a in (FALSE, TM.I(0)) or a.op in ('null', 'undef'): continue
        if a.op == 'promise':
            st = St(); m.initglobals(st)
            fr = Frame(None); fr.this = None
            m.await_(st, fr, a)
            if not st.dead and st.store[('init',)] is not TRUE: bad(name, 'holds a promise that settles before initialisation has completed')
            continue
        if a.op == 'arg' and a.args[0] == 'g:' + name: continue
        if g is TRUE: continue
        bad(name, '%s is set before initialisation has completed' % name)

JS = {p: (lambda c, l=l: run_(c, l)) for p, l in JS.items()}
