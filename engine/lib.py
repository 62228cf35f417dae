"""Obligations, verdicts and evidence shared by all checks."""
import os, sys, json, time, subprocess, shutil, tempfile, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rust import *
import terms as TM

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZK_REPO', '/repo')

# the module and the self type of the functions looked up by name, for when another one has the same name
HOME = {('zkenc_cli', n): ('zkenc_cli::' + m, t) for n, m, t in (('decrypt_ctr', 'crypto', ''), ('decrypt_gcm', 'crypto', ''), ('encrypt_ctr', 'crypto', ''), ('encrypt_gcm', 'crypto', ''), ('generate_constraints', 'circuit', 'CircomCircuit'),
    ('main', 'main_bin', ''), ('parse_inputs', 'circom', ''), ('load_circom_circuit', 'circom', ''), ('to_field_elements', 'witness', 'WitnessFile'), ('to_serializable', 'r1cs', 'R1csFile'), ('parse_sym_file', 'sym_parser', ''), ('get_input_signals', 'sym_parser', ''))}
HOME.update({('zkenc_core', n): ('zkenc_core::' + m, '') for n, m in (('decap', 'algorithm'), ('encap', 'algorithm'), ('verify_ciphertext', 'algorithm'), ('evaluate_qap_polynomials_at_x', 'r1cs_to_qap'))})
HOME.update({('zkenc_js', n): ('zkenc_js', '') for n in ('parse_r1cs', 'parse_witness', 'wasm_encap', 'wasm_decap')}); HOME['zkenc_js', 'generate_constraints'] = ('zkenc_js', 'CircomCircuit')

def aty(ty):
    h = head(ty)
    return h if h in INTS or h == 'bool' else ''

def recsig(t):
    return sorted({(x.op, x.args[0], len(x.args[-1])) for x in walk(t) if x.op in ('rec', 'recmut')})

def loopsig(t): return {(x.op, len(x.args[1]) if x.op == 'mu' else 0) for x in walk(t) if x.op in ('mu', 'brkn')}

class Res:
    """the value graph of one function: success condition, result, effects, panic obligations"""
    def __init__(s, path, v, st, m, isresult):
        s.path, s.v, s.st, s.m = path, v, st, m
        s.ok = isv(v, 'Ok') if isresult else TRUE
        s.val = assume(pl(v, 'Ok', 0), [s.ok]) if isresult else v
        s.events = [e for e in m.events if e[0].split(':')[-1] not in ('print', 'errmsg')]
        s.obls = m.obls

def evterm(e):
    """an effect as a closed term: the gates and loops it happens under, and its operands"""
    kind, pc, a = e[0], list(e[1]), list(e[2])
    bind = []
    while a and isinstance(a[0], tuple) and a[0] and a[0][0] == 'each': bind.append(a.pop(0)[1:])
    if kind.startswith('loop:'): kind = kind[5:]
    t = raw('ev', kind, *a)
    for bv, n in reversed(bind):
        inner = [c for c in pc if bv in c.fv]; pc = [c for c in pc if bv not in c.fv]
        c = and_(*inner)
        t = raw('G', bv, n, t if c is TRUE else raw('site', c, raw('seq', t), EMPTY))
    c = and_(*pc)
    return t if c is TRUE else raw('site', c, raw('seq', t), EMPTY)

class GaveUp(Exception): pass
class Late(BaseException): pass

def divides(a, b):
    """a / b when every monomial of a has the factor b"""
    out = {}
    for mm, c in TM._mono(a).items():
        l = list(mm)
        if b not in l: return None
        l.remove(b); out[tuple(l)] = c
    return TM.mkpoly(out)
def equals(facts):
    """len(x) -> its value, from the equations among the facts"""
    m = {}
    for y in facts:
        if y.op != 'eq0': continue
        d = TM._mono(y.args[0])
        for mm, c in d.items():
            if c in (1, -1) and len(mm) == 1 and mm[0].op == 'len' and mm[0] not in m:
                rest = TM.mkpoly({k: -v * c for k, v in d.items() if k != mm})
                if not any(z is mm[0] for z in TM.walk(rest)) and rest.op != 'int': m[mm[0]] = rest; break
    return m
def rewrite(t, m):
    memo = {}
    def f(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            r = TM.rebuild(x, f)
            if r.op == 'udiv':
                q = divides(r.args[0], r.args[1])
                if q is not None: r = q
            memo[x] = r
        return r
    return f(t)
class Ctx:
    def __init__(s, prop):
        s.prop = prop; s.t0 = time.time(); s.obl = []; s.fns = set(); s.cache = {}; s.notes = []
        s.dir = tempfile.mkdtemp(prefix='zkv.')
    def load_rust(s):
        r = subprocess.run(['bash', VERIF + '/extract/run_rust.sh', REPO, s.dir], capture_output=True, text=True)
        s.p = Prog(s.dir)
        s.front = {}
        for n in ('core', 'cli', 'js', 'spec'):
            try: log = open('%s/%s.log' % (s.dir, n)).read()
            except OSError: log = 'not run'
            s.front[n] = [l for l in log.splitlines() if l.startswith('error')]
        if s.front['spec'] or 'zkspec' not in s.p.crates: raise SystemExit('spec crate does not compile: %s %s' % (s.front['spec'], r.stdout[-300:]))
    def share(s, o): s.p, s.front, s.first = o.p, o.front, o.first or o
    first = None
    def load_ts(s):
        """the TypeScript package and its reference, loaded once per process"""
        o = s.first or s
        if not hasattr(o, 'ts'):
            import tsx
            o.ts = o.tsref = None
            src = REPO + '/packages/zkenc-js/src'; errs = []
            both_ = o.dir + '/client'          # the package together with clients of its exported class
            try:
                shutil.copytree(src, both_, ignore=shutil.ignore_patterns('node_modules', 'pkg', 'dist'))
                for x in os.listdir(VERIF + '/spec/client'): shutil.copy(VERIF + '/spec/client/' + x, both_)
            except OSError: pass
            for n, d in (('ts', both_), ('ts', src), ('tsref', VERIF + '/spec/ts')):
                if getattr(o, n) is not None: continue
                out = '%s/%s.json' % (o.dir, n)
                r = subprocess.run(['node', VERIF + '/extract/ts/dump.cjs', d, out], capture_output=True, text=True)
                if r.returncode or not os.path.exists(out): errs.append('%s: %s' % (n, r.stderr[-300:])); continue
                p = tsx.TsProg(out)
                if p.diags: errs.append('%s: %s' % (n, p.diags[:2])); continue
                setattr(o, n, p); errs = [e for e in errs if not e.startswith(n + ':')]
            o.front['ts'] = errs
            if o.tsref is None: raise SystemExit('the TypeScript reference does not load: %s' % errs)
        s.ts, s.tsref = o.ts, o.tsref
        return s.ts
    def tsfn(s, name, prog=None):
        l = [(f, fn, cls) for f, n, fn, cls in (prog or s.ts).fns() if n == name and not f.endswith('.js')]
        return l[0] if l else None
    def evts(s, name, args=None, prog=None, opaque=(), shape=None):
        import tsx
        prog = prog or s.ts
        key = ('ts', prog is s.tsref, name, tuple(args) if args else None, tuple(opaque), shape)
        if key in s.cache: return s.cache[key]
        x = s.tsfn(name, prog)
        if x is None:
            s.add('anchor:ts.' + name, 'zkenc-js ' + name, 'missing', 'no function %s in the TypeScript package' % name); raise GaveUp(name)
        f, fn, cl = x; path = '%s::%s' % (f, name)
        m = tsx.TS(prog, opaque=opaque); m.shape = shape; a = []
        for i, q in enumerate(fn['params']):
            ty = q.get('ty', '') or ''
            t = arg('a%d' % i, 'bytes' if ty.startswith('Uint8Array') else 'bool' if ty == 'boolean' else 'array' if re.fullmatch(r'(bigint|number|string)\[\]|Array<(bigint|number|string)>', ty) else '')
            if args and i < len(args) and args[i] is not None: t = args[i]
            a.append(t)
        try: v, st = m.run(fn, a, arg('this') if cl else None)
        except (SystemExit, KeyboardInterrupt, Late): raise
        except BaseException as e:
            s.add('analysis:ts.' + name, path, 'undecided', 'the evaluator gave up: %s' % (repr(e)[:200],)); s.notes.append(repr(e)[:300])
            if os.environ.get('ZK_DEBUG'): raise
            raise GaveUp(path)
        if prog is s.ts: s.fns |= {'ts:' + x for x in m.called} | {'ts:' + path}
        r = Res(path, v, st, m, True)
        s.cache[key] = r
        return r
    def spects(s, name, args=None, opaque=(), shape=None): return s.evts(name, args, s.tsref, opaque, shape)
    # ------------------------------------------------------------ lookup
    def find(s, crate, name, selfty=None):
        """paths of the functions called name in crate (optionally: methods of selfty)"""
        out = []
        for q, b in s.p.fns.items():
            if not q.startswith(crate + '::') or b['kind'] not in ('Fn', 'AssocFn') or b.get('exp') or '::tests::' in q: continue
            if b['name'] != name: continue
            if selfty is not None and (b.get('impl_self') or '').split('<')[0].split('::')[-1] != selfty: continue
            out.append(q)
        return out
    def one(s, crate, name, selfty=None, what=None):
        l = s.find(crate, name, selfty)
        if not l:
            s.add('anchor:%s::%s' % (crate, name), '%s::%s' % (crate, name), 'missing', 'no function %s in %s' % (name, crate))
            return None
        if len(l) > 1:
            home = lambda q: (HOME.get((crate, name)) == ('::'.join(x for x in q.split('::')[:-1] if not x.startswith('{')), (s.p.fns[q].get('impl_self') or '').split('<')[0].split('::')[-1]))
            l = [q for q in l if home(q)] or l
        return sorted(l, key=len)[0]
    # ------------------------------------------------------------ evaluation
    def ev(s, path, args=None, opaque=(), names=None):
        key = (path, tuple(args) if args else None, tuple(opaque))
        if key in s.cache: return s.cache[key]
        b = s.p.fns[path]; m = Rust(s.p, opaque=opaque); st = St(); a = []
        for i, q in enumerate(b['params']):
            t = arg('a%d' % i, aty(q['ty']))
            if args and i < len(args) and args[i] is not None: t = args[i]
            if q['ty'].startswith('&mut'):
                st.store[('a', i)] = t; t = raw('ref', ('a', i), ())
            a.append(t)
        try: v, st = m.run(path, a, st)
        except (SystemExit, KeyboardInterrupt, Late): raise
        except BaseException as e:
            s.add('analysis:' + path, path, 'undecided', 'the evaluator gave up: %s' % (repr(e)[:200],)); s.notes.append(repr(e)[:300])
            if os.environ.get('ZK_DEBUG'): raise
            raise GaveUp(path)
        s.fns |= {x for x in m.called if x in s.p.fns and not x.startswith('zkspec')}
        r = Res(path, v, st, m, isres(b['sigret']))
        s.cache[key] = r
        return r
    def spec(s, name, args=None, opaque=()): return s.ev('zkspec::' + name, args, opaque)
    # ------------------------------------------------------------ verdicts
    def add(s, key, where, status, detail='', construct=''):
        s.obl.append({'key': key, 'fn': where, 'status': status, 'detail': detail, 'construct': construct})
    def same(s, key, where, got, want, facts=()):
        """got must be the same value as want, where the facts hold"""
        if same(got, want): return s.add(key, where, 'holds')
        if facts:
            m = equals(facts)
            if m and same(rewrite(got, m), rewrite(want, m)): return s.add(key, where, 'holds')
        if got.unk: return s.add(key, where, 'undecided', 'the construct is outside the analysed language')
        sg, sw = recsig(got), recsig(want)
        if sg != sw: return s.add(key, where, 'undecided', 'recursion of a different shape %s / %s' % (sg, sw))
        if loopsig(got) != loopsig(want) and TM.differs(got, want) is None:
            return s.add(key, where, 'undecided', 'recurrences of a different shape; no difference on small sizes')
        d = firstdiff(got, want)
        x = '; '.join('%s: is %s, must be %s' % (p or 'value', show(a, 0, 6)[:400], show(b, 0, 6)[:400]) for p, a, b in d[:3])
        s.add(key, where, 'violated', x)
    def true(s, key, where, cond, detail='', unk_=False):
        s.add(key, where, 'holds' if cond else ('undecided' if unk_ else 'violated'), '' if cond else detail)

    # ------------------------------------------------------------ report
    def finish(s, rule, floor_fns=0, floor_obl=0, extra=None):
        known = []
        try:
            for l in open(VERIF + '/known_findings.jsonl'):
                l = l.strip()
                if l: known.append(json.loads(l))
        except OSError: pass
        known = {(k['property'], k['key']): k for k in known if k.get('status') == 'known'}
        bad = []
        for o in s.obl:
            if o['status'] in ('violated',):
                k = known.get((s.prop, o['key']))
                if k is not None:
                    o['status'] = 'known-finding'
                    print('KNOWN-FINDING: property=%s %s' % (s.prop, k['what']))
                else: bad.append(o)
        held = [o for o in s.obl if o['status'] == 'holds']
        und = [o for o in s.obl if o['status'] in ('undecided', 'missing')]
        ev = {'property': s.prop, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other', 'wall_s': round(time.time() - s.t0, 2), 'result': 'violation' if bad else 'holds',
              'coverage': {'explanation': rule,
                           'functions_analysed': len(s.fns), 'functions': sorted(s.fns),
                           'obligations': len(s.obl), 'discharged': len(held), 'undecided': len(und),
                           'known_findings': len([o for o in s.obl if o['status'] == 'known-finding']), 'violations': len(bad)},
              'obligations': s.obl, 'notes': s.notes, 'frontend': getattr(s, 'front', {})}
        if extra: ev['coverage'].update(extra)
        path = VERIF + '/evidence/%s.json' % s.prop
        if not os.environ.get('VERIF_NOEVIDENCE'):
            os.makedirs(VERIF + '/evidence', exist_ok=True)
            json.dump(ev, open(path, 'w'), indent=1)
        shutil.rmtree(s.dir, ignore_errors=True)
        for o in und: print('undecided: %s %s %s' % (o['key'], o['fn'], o['detail']))
        for o in bad:
            print('  %s in %s: %s' % (o['key'], o['fn'], o['detail']))
        if bad:
            print('VIOLATION property=%s replay=%s' % (s.prop, path))
            return 1
        print('%s: %d of %d obligations hold over %d functions (%.1f s)' % (s.prop, len(held), len(s.obl), len(s.fns), time.time() - s.t0))
        return 0
