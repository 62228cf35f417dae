"""Language-independent part of the gated value-graph builder: states, branches, loops, calls.

A function body is translated once, structurally, into terms: conditionals become gates (ite), loops become
closed forms, sequence builders (G) or recurrences (mu), failures become conditions on the success exit.
Nothing is executed and no constraint solver is used.
"""
from terms import *
import terms as TM

class St:
    __slots__ = ('store', 'pc', 'dead')
    def __init__(s, store=None, pc=(), dead=False):
        s.store = dict(store) if store else {}; s.pc = tuple(pc); s.dead = dead
    def fork(s, cond=None):
        n = St(s.store, s.pc, s.dead)
        if cond is not None: n.know(cond)
        return n
    def know(s, cond):
        if cond is TRUE: return
        if cond is FALSE: s.dead = True
        s.pc = s.pc + (cond,)
    def set(s, o): s.store, s.pc, s.dead = o.store, o.pc, o.dead

class Frame:
    n = 0
    def __init__(s, fn=None, parent=None):
        Frame.n += 1
        s.uid = Frame.n; s.fn = fn; s.parent = parent; s.vars = {}; s.exits = []; s.loops = []; s.ret = None
    def find(s, lid):
        f = s
        while f is not None:
            if lid in f.vars: return f.vars[lid]
            f = f.parent
        return None

class LoopCtx:
    def __init__(s, label, lid): s.label = label; s.lid = lid; s.breaks = []; s.conts = []

class Obl:
    """a panic-freedom obligation: under pc, cond must hold"""
    def __init__(s, kind, cond, pc, where, fn, ctx): s.kind, s.cond, s.pc, s.where, s.fn, s.ctx = kind, cond, pc, where, fn, ctx

class Limit(Exception): pass

def sep(pc, others):
    """a condition that holds on the path pc and on none of the others: one literal where that is enough"""
    ks = [set(x for p in o for x in conj(p)) for o in others]
    for p in pc:
        for c in conj(p):
            n = not_(c)
            if all(n in k for k in ks): return c
    return and_(*pc)
class Machine:
    maxdepth = 40
    def __init__(m):
        m.events = []        # (kind, pc, args, where)
        m.obls = []
        m.clos = {}; m.drawn = {}; m.ncalled = set()
        m.stack = []
        m.called = set()
        m.ctxconds = []      # quantifier context of the loops being evaluated
        m.fresh = 0
        m.nbounds = 0        # writes whose index could not be bounded
        m.steps = 0

    # ------------------------------------------------------------ exits
    def is_err(m, v): return v.op == 'var' and v.args[0] in ('Err', 'Throw')
    def exit(m, st, fr, v):
        fr.exits.append((st.pc, v, st.store)); st.dead = True

    def finish(m, st, fr, base, val):
        """fold the exits of a frame into one value; base = length of st.pc at entry"""
        ex = [(pc[base:], v, s) for pc, v, s in fr.exits]
        if not st.dead: ex.append((st.pc[base:], val, st.store))
        if not ex:
            st.dead = True; return BOT
        pc0 = st.pc[:base]
        # the exits are disjoint: errors first, so that the others are told apart by what separates them from each other
        live = [e for e in ex if m.is_err(e[1])]; rest = [e for e in ex if not m.is_err(e[1])]
        live += rest
        res = live[-1][1]
        for i in range(len(live) - 2, -1, -1):
            pc, v, s = live[i]
            res = ite(sep(pc, [e[0] for e in live[i + 1:]]), v, res)
        # state: merge the non-error exits (an error exit leaves the caller on its failure path)
        good = [e for e in live if not m.is_err(e[1])] or live
        store = good[-1][2]
        for i in range(len(good) - 2, -1, -1):
            store = m.merge_store(sep(good[i][0], [e[0] for e in good[i + 1:]]), good[i][2], store)
        st.store = dict(store); st.pc = pc0; st.dead = False
        return res

    def merge_store(m, c, a, b):
        out = dict(b)
        for k, v in a.items():
            w = b.get(k)
            if w is None: out[k] = v
            elif w is not v: out[k] = m.mite(c, v, w)
        return out

    def mite(m, c, a, b):
        return ite(c, a, b)

    def branch(m, st, c, f1, f2):
        if st.dead: return BOT
        if c.op != 'bool' and st.pc:
            k = set(st.pc)
            if c in k: c = TRUE
            elif not_(c) in k: c = FALSE
        if c is TRUE: return f1(st)
        if c is FALSE: return f2(st)
        n = len(st.pc)
        s1, s2 = st.fork(c), st.fork(not_(c))
        v1 = f1(s1); v2 = f2(s2)
        if s1.dead and s2.dead: st.set(s1); return BOT
        if s1.dead: st.set(s2); return v2
        if s2.dead: st.set(s1); return v1
        st.store = m.merge_store(c, s1.store, s2.store)
        e1, e2 = and_(*s1.pc[n:]), and_(*s2.pc[n:])
        k = or_(e1, e2)
        st.pc = s1.pc[:n] + ((k,) if k is not TRUE else ())
        if v1 is BOT: return v2
        if v2 is BOT: return v1
        if v1 is None or v2 is None: return UNIT
        return m.mite(c, v1, v2)

    def need(m, st, kind, cond, where, fr=None):
        if cond is TRUE or st.dead: return
        m.obls.append(Obl(kind, cond, st.pc, where, m.stack[-1] if m.stack else '?', tuple(m.ctxconds)))

    def event(m, st, kind, args, where=None):
        if not st.dead: m.events.append((kind, st.pc, args, where, m.stack[-1] if m.stack else '?'))

    # ------------------------------------------------------------ loops
    def loop(m, st, fr, n, bind, label=None, lid=None, bv=None):
        """evaluate `for bv in 0..n { bind(state, bv) }`; bind evaluates the body and may break/continue"""
        if st.dead: return UNIT
        if n is not INF and cst(n) is not None and cst(n) <= 0: return UNIT
        bv = bv or sym('i', True)
        base = len(st.pc)
        carried = []
        phis = {}
        keep_ev, keep_ob = len(m.events), len(m.obls)
        saved = fr.exits
        fixed = set(); nolen = set(); leaves = []
        affine = {}
        if not m.notpos: m.notpos = set()
        for attempt in range(24):
            del m.events[keep_ev:]; del m.obls[keep_ob:]
            s = st.fork(); leaves = []; nb0 = m.nbounds
            for c in carried: s.store[c] = affine[c] if c in affine else m.mkphi(c, (), st.store[c], phis, leaves, fixed, nolen)
            s.know(TRUE)
            ctx = LoopCtx(label, lid)
            fr.loops.append(ctx); fr.exits = []
            if n is not INF: m.ctxconds.append(ge0(sub(sub(n, bv), I(1))))
            try:
                bind(s, bv)
            finally:
                fr.loops.pop(); ex = fr.exits; fr.exits = saved
                if n is not INF: m.ctxconds.pop()
            outs = ([(s.pc, s.store)] if not s.dead else []) + list(ctx.conts) + [(p, q) for p, q, _ in ctx.breaks] + [(p, q) for p, v, q in ex if not m.is_err(v)]
            new = [c for c in st.store if c not in carried and any(q.get(c) is not st.store[c] for _, q in outs)]
            if new: carried += new; continue
            again = False
            for k in leaves:
                vs = [m.leafval(q[k[0]], k[1]) for _, q in outs]
                if all(v is phis[k] for v in vs): fixed.add(k); again = again or len(k[1]) > 0
                elif phis[k] in TM.LEN and any(ln(v) is not TM.LEN[phis[k]] for v in vs): nolen.add(k); phis.pop(k); again = True
            if not again and m.signed:
                # a counter that starts out non-negative stays so only if every iteration keeps it so
                for k in leaves:
                    if k in phis and phis[k].args[1] and k[0] not in affine:
                        for p, q in outs:
                            v = m.leafval(q[k[0]], k[1])
                            if v is not phis[k] and not nonneg(v) and not m.staysup(v, p[base:]): m.notpos.add(k); phis.pop(k); again = True; break
            if not again and m.nbounds > nb0 and not affine:
                # an index could not be bounded: run the body again with the counters in closed form
                go = [p for p in ([(s.pc, s.store)] if not s.dead else []) + list(ctx.conts)]
                for k in leaves:
                    if k[1] or not go: continue
                    ds = {sub(q[k[0]], phis[k]) for _, q in go if q[k[0]].op in ('poly', 'int')}
                    if len(ds) == 1 and all(q[k[0]].op in ('poly', 'int') for _, q in go):
                        d, = ds
                        if d is not I(0) and bv not in d.fv and not (d.fv & set(phis.values())): affine[k[0]] = add(st.store[k[0]], mul(d, bv))
                again = bool(affine)
            if not again: break
        else:
            for c in carried: st.store[c] = unk('loop', I(0))
            return UNIT
        errs = [and_(*p[base:]) for p, v, q in ex if m.is_err(v)]
        rets = [(and_(*p[base:]), v, q) for p, v, q in ex if not m.is_err(v)]
        brks = [(and_(*p[base:]), v, q) for p, q, v in ctx.breaks]
        normal = [(p[base:], q) for p, q in ctx.conts]
        if not s.dead: normal.append((s.pc[base:], s.store))
        normal = [(sep(p, [o for o, _ in normal[i + 1:]]), q) for i, (p, q) in enumerate(normal)]
        ok = not_(or_(*errs))
        stop = or_(*[b for b, _, _ in brks], *[b for b, _, _ in rets])
        known = conj(ok) + conj(not_(stop))
        # end-of-iteration value of every carried cell
        upd = {}; init = {}
        for k in leaves:
            init[k] = m.leafval(st.store[k[0]], k[1])
            if not normal: upd[k] = phis[k]; continue
            v = m.leafval(normal[-1][1][k[0]], k[1])
            for p, q in reversed(normal[:-1]): v = m.mite(p, m.leafval(q[k[0]], k[1]), v)
            upd[k] = assume(v, known)
        sol = m.solve(init, leaves, phis, upd, bv, and_(ok, not_(stop)))
        shape = {c: affine[c] if c in affine else m.mkphi(c, (), st.store[c], phis, [], fixed, nolen) for c in carried}
        f = lambda t: m.fixp(t, sol)
        N = n; out = []
        if stop is not FALSE:
            cs = f(assume(stop, conj(ok)))
            N = brkn(bv, n, cs)
            if n is INF:
                # a stop condition  bv >= d  does not hold in the iterations that run
                out = [not_(x) for x in (cs.args if cs.op == 'or' else (cs,)) if TM.atleast(x, bv) is not None]
        fin = lambda t: subst(t, {bv: N})
        okc = all_(bv, N, assume(f(ok), out) if out else f(ok))
        # closed values at iteration k
        def at(c, k): return subst(f(shape[c]), {bv: k})
        found = TRUE if n is INF else (FALSE if stop is FALSE else not_(all_(bv, n, not_(f(assume(stop, conj(ok)))))))
        newstore = dict(st.store)
        for c in carried:
            v = at(c, N)
            if found is not FALSE:
                bvals = [(b, q[c]) for b, _, q in brks]
                if any(q is not shape[c] for _, q in bvals):
                    allb = [(b, f(q)) for b, q in bvals]
                    w = allb[-1][1]
                    for b, q in reversed(allb[:-1]): w = m.mite(f(b), q, w)
                    w = fin(assume(w, conj(f(stop)) + conj(f(ok))) if len(allb) == 1 else w)
                    v = m.mite(found, w, v)
            newstore[c] = v
        # wrap the events of the body
        evs = m.events[keep_ev:]; del m.events[keep_ev:]
        for kind, pc, a, where, fn in evs:
            a = tuple(f(x) if isinstance(x, T) else x for x in a)
            m.events.append(('loop:' + kind if not kind.startswith('loop:') else kind, pc[:base] + tuple(assume(f(x), out) if out else f(x) for x in pc[base:]), (('each', bv, N),) + a, where, fn))
        for p, v, q in ex:
            if m.is_err(v) and v.args[0] == 'Err' and v.args[1] and v.args[1][0].op not in ('str', 'looperr', 'tup'):
                m.events.append(('loop:errmsg', st.pc, (('each', bv, N), f(v.args[1][0])), None, m.stack[-1] if m.stack else '?'))
        for o in m.obls[keep_ob:]:
            o.pc = o.pc[:base] + tuple(f(x) for x in o.pc[base:]); o.cond = f(o.cond); o.ctx = tuple(f(x) for x in o.ctx)
            # facts established for every earlier iteration are not carried; the quantified guard is
        st.store = newstore
        if okc is not TRUE:
            es = st.fork(not_(okc))
            if not es.dead: fr.exits.append((es.pc, Err(raw('looperr')), es.store))
        st.know(okc)
        result = UNIT
        if rets:
            # a value returned out of the loop
            rc = or_(*[b for b, _, _ in rets])
            v = f(rets[-1][1])
            for b, x, _ in reversed(rets[:-1]): v = m.mite(f(b), f(x), v)
            v = fin(v)
            if brks:
                hit = and_(found, fin(f(rc)))
            else: hit = found
            if hit is not FALSE:
                es = st.fork(hit)
                for c in carried:
                    w = fin(f(rets[-1][2][c])); es.store[c] = w
                fr.exits.append((es.pc, v, es.store))
                st.know(not_(hit))
        if n is INF and not brks: st.dead = True
        if brks and any(v is not None for _, v, _ in brks):
            w = f(brks[-1][1] or UNIT)
            for b, x, _ in reversed(brks[:-1]): w = m.mite(f(b), f(x or UNIT), w)
            result = fin(w)
        return result

    def fixp(m, t, sol):
        for _ in range(8):
            if not any(s in sol for s in t.fv): return t
            t = subst(t, {s: sol[s] for s in t.fv if s in sol})
        return t

    def growth(m, ph, v):
        """v as ph ++ rest (a sequence), or None"""
        if v is ph: return EMPTY
        if v.op == 'seq' and v.args and v.args[0] is ph:
            r = seq(*v.args[1:]) if len(v.args) > 1 else EMPTY
            return r
        if v.op == 'ite':
            a, b = m.growth(ph, v.args[1]), m.growth(ph, v.args[2])
            if a is None or b is None: return None
            return site(v.args[0], a, b)
        return None

    signed = False
    notpos = frozenset()
    def staysup(m, v, facts):
        return TM.nonneg_atom(v) or assume(ge0(v), [y for x in facts for y in conj(x)]) is TRUE
    def mkphi(m, c, path, iv, phis, leaves, fixed, nolen):
        """the loop-carried value of a cell: one symbol per leaf of a structured value"""
        k = (c, path)
        if k in fixed and path: return iv
        if iv.op == 'adt' and iv.args[1]:
            return raw('adt', iv.args[0], tuple((n, m.mkphi(c, path + (n,), x, phis, leaves, fixed, nolen)) for n, x in iv.args[1]))
        if iv.op == 'tup' and iv.args:
            return raw('tup', *[m.mkphi(c, path + (str(i),), x, phis, leaves, fixed, nolen) for i, x in enumerate(iv.args)])
        if k not in phis:
            phis[k] = sym('phi', nonneg(iv) and k not in m.notpos)
            if (iv.op in ('rep', 'arr', 'bytes', 'sl', 'wr', 'enc', 'rnd') or iv.op in ('sym', 'muat') and ln(iv).op != 'len') and k not in nolen: TM.LEN[phis[k]] = ln(iv)
        leaves.append(k)
        return phis[k]
    def leafval(m, v, path):
        for p in path: v = fld(v, p)
        return v
    def solve(m, inits, carried, phis, upd, bv, ok=TRUE):
        """closed forms (as functions of bv = iteration index, value before iteration bv) of the carried cells"""
        sol = {}
        todo = list(carried)
        progress = True
        P = set(phis.values())
        while progress and todo:
            progress = False
            for c in list(todo):
                ph, init, u = phis[c], inits[c], subst(upd[c], {k: v for k, v in sol.items()})
                u = m.fixp(u, sol)
                val = None
                if u is ph: val = init
                else:
                    d = sub(u, ph) if u.op in ('poly', 'int') or ph in u.fv and u.op == 'poly' else None
                    if d is not None and not (d.fv & P):
                        if bv not in d.fv: val = add(init, mul(d, bv))
                    if val is None and ph.fv and init.op == 'map' :
                        uu = m.maplog(u, ph)
                        if uu is not None:
                            g = uu
                            if not (g.fv & P):
                                b2 = sym('i', True)
                                val = mapt(seq(init.args[0], G(b2, bv, subst(g, {bv: b2}))))
                    if val is None:
                        g = m.growth(ph, u)
                        if g is not None and not (g.fv & P):
                            b2 = sym('i', True)
                            val = seq(init, G(b2, bv, subst(g, {bv: b2})))
                        elif g is not None and ph in g.fv:
                            # the only self reference is the running length
                            l0 = ln(ph); step = ln(g)
                            if not (step.fv & P) and bv not in step.fv:
                                g2 = substany(g, {l0: add(ln(init), mul(step, bv))})
                                if not (g2.fv & P):
                                    b2 = sym('i', True)
                                    val = seq(init, G(b2, bv, subst(g2, {bv: b2})))
                    if val is None and u.op == 'wr' and u.args[0] is ph and not (raw('tup', *[x for w in u.args[1] for x in w]).fv & P):
                        # constant-stride writes
                        if len(u.args[1]) == 1:
                            off, s = u.args[1][0]; step = sub(subst(off, {bv: add(bv, I(1))}), off)
                            if step is ln(s) and bv not in step.fv:
                                b2 = sym('i', True)
                                val = write(init, subst(off, {bv: I(0)}), G(b2, bv, subst(s, {bv: b2})))
                    if val is None: val = m.special(ph, init, u, bv, P)
                    if val is None: val = m.first(ph, init, u, bv, P)
                    if val is None and init.op == 'map': val = m.fresh_keys(ph, init, u, bv, P)
                    if val is None and not (u.fv & P) and bv not in u.fv:
                        # overwritten with the same value in every iteration
                        val = ite(ge0(add(bv, I(-1))), u, init)
                    if val is None and not (u.fv & P):
                        # overwritten in every iteration
                        val = ite(ge0(add(bv, I(-1))), subst(u, {bv: sub(bv, I(1))}), init)
                if val is not None:
                    sol[ph] = val; todo.remove(c); progress = True
            if todo and not progress:
                # the smallest strongly connected system of the remaining variables becomes a recurrence
                us = {c: m.fixp(upd[c], sol) for c in todo}
                best = None
                for c in todo:
                    need = [c]
                    for x in need:
                        for y in todo:
                            if y not in need and phis[y] in us[x].fv: need.append(y)
                    if best is None or len(need) < len(best): best = need
                old = [phis[x] for x in best]
                new = [sym('r', s.args[1]) for s in old]; nb = sym('i', True)
                for s, s2 in zip(old, new):
                    if s in TM.LEN: TM.LEN[s2] = TM.LEN[s]
                ren = dict(zip(old, new)); ren[bv] = nb
                ups = [subst(under(m.fixp(ok, sol), us[x]), ren) for x in best]
                for k, x in enumerate(best):
                    sol[phis[x]] = muat(mu(k, new, [inits[y] for y in best], ups, nb), bv)
                    todo.remove(x)
                progress = True
        # close the closed forms over each other
        for _ in range(4):
            for k in sol: sol[k] = m.fixp(sol[k], {a: b for a, b in sol.items() if a is not k})
        return sol

    def special(m, ph, init, u, bv, P):
        # repeated shifts
        if u.op == 'shr' and u.args[0] is ph and not (u.args[1].fv & P) and bv not in u.args[1].fv: return TM.shr(init, mul(u.args[1], bv))
        # an element stored right behind the last one
        if u.op == 'unk' and u.args[0] == 'setidx' and len(u.args) == 4 and u.args[1] is ph and u.args[2] is add(ln(init), bv) and not (u.args[3].fv & P):
            b2 = sym('i', True)
            return seq(init, G(b2, bv, one(subst(u.args[3], {bv: b2}))))
        # the largest of the elements seen
        e = None
        if u.op == 'poly' and ph in u.fv:
            for mm, c in u.args:
                if c == -1 and len(mm) == 1 and mm[0].op == 'min' and ph in mm[0].args:
                    y = mm[0].args[1] if mm[0].args[0] is ph else mm[0].args[0]
                    if u is sub(add(ph, y), mm[0]): e = y
        if u.op == 'ite' and ph in u.args[1:] and u.args[0].op == 'ge0':
            y = u.args[2] if u.args[1] is ph else u.args[1]
            d = sub(y, ph) if y is u.args[1] else sub(ph, y)        # what is known where y / ph is taken
            if u.args[0] is ge0(d) or u.args[0] is ge0(sub(d, I(1))): e = y
        if e is not None and not (e.fv & P):
            b2 = sym('i', True)
            g = G(b2, bv, one(subst(e, {bv: b2})))
            return ext('maxof', seq(g) if init.op == 'poly' and init is neg(ext('Infinity')) else seq(one(init), g))
        # growth at the front
        if u.op == 'seq' and len(u.args) > 1 and u.args[-1] is ph:
            g = seq(*u.args[:-1]) if len(u.args) > 2 or u.args[0].op not in ('one', 'G', 'site') else raw('seq', u.args[0])
            if not (g.fv & P):
                b2 = sym('i', True)
                return seq(G(b2, bv, subst(g, {bv: sub(sub(bv, I(1)), b2)})), init)
        # descending writes
        if u.op == 'wr' and u.args[0] is ph and len(u.args[1]) == 1 and not (raw('tup', *u.args[1][0]).fv & P):
            off, s = u.args[1][0]; step = sub(off, subst(off, {bv: add(bv, I(1))}))
            if step is ln(s) and bv not in step.fv:
                b2 = sym('i', True)
                return write(init, subst(off, {bv: sub(bv, I(1))}), G(b2, bv, subst(s, {bv: sub(sub(bv, I(1)), b2)})))
        return None
    def first(m, ph, init, u, bv, P):
        """x = None; loop { if x is None && c(i) { x = Some(v(i)) } }: the first i with c(i)"""
        if init is not NONE or u.op != 'ite': return None
        for g, a, b in ((u.args[0], u.args[1], u.args[2]), (not_(u.args[0]), u.args[2], u.args[1])):
            if b is not ph or a.op != 'var' or a.args[0] != 'Some': continue
            cs = conj(g); none = not_(isv(ph, 'Some'))
            if none not in cs: continue
            c = and_(*settled([x for x in cs if x is not none])); c = assume(c, [none]); a = assume(a, [none])
            if (c.fv | a.fv) & P: return None
            b2 = sym('i', True); k = brkn(b2, bv, subst(c, {bv: b2}))
            b3 = sym('i', True)
            return ite(all_(b3, bv, not_(subst(c, {bv: b3}))), NONE, subst(a, {bv: k}))
        return None
    def fresh_keys(m, ph, init, u, bv, P):
        """insert only when the key is absent, over keys that are pairwise different"""
        if init.args[0] is not EMPTY or u.op != 'ite': return None
        for g, a, b in ((u.args[0], u.args[1], u.args[2]), (not_(u.args[0]), u.args[2], u.args[1])):
            if a is not ph or g.op != 'isv' or g.args[0].op != 'get' or g.args[0].args[0] is not ph: continue
            k = g.args[0].args[1]; l = m.maplog(b, ph)
            if l is None or len(l.args) != 1 or l.args[0].op != 'one' or fld(l.args[0].args[0], '0') is not k: continue
            if not (k.op == 'fld' and k.args[1] == '0' and k.args[0].op == 'idx' and k.args[0].args[1] is bv and k.args[0].args[0].op == 'ext' and k.args[0].args[0].args[0] == 'entries'): continue
            if (l.fv & P): return None
            b2 = sym('i', True)
            return mapt(G(b2, bv, subst(l, {bv: b2})))
        return None

    def maplog(m, u, ph):
        """u as map ph plus a log"""
        if u is ph: return EMPTY
        if u.op == 'map' and u.args[0].op == 'seq' and u.args[0].args and u.args[0].args[0].op == 'logof' and u.args[0].args[0].args[0] is ph:
            return seq(*u.args[0].args[1:])
        if u.op == 'map' and u.args[0].op == 'logof' and u.args[0].args[0] is ph: return EMPTY
        if u.op == 'ite':
            a, b = m.maplog(u.args[1], ph), m.maplog(u.args[2], ph)
            if a is None or b is None: return None
            return site(u.args[0], a, b)
        return None

    # ------------------------------------------------------------ views of sequences
    def view(m, s):
        """(bv, n, cond, elem): s as a guarded comprehension, or None"""
        if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'G':
            g = s.args[0]; body = g.args[2]
            bv = sym('i', True)
            body = subst(body, {g.args[0]: bv})
            if body.op == 'seq' and len(body.args) == 1:
                x = body.args[0]
                if x.op == 'one': return bv, g.args[1], TRUE, x.args[0]
                if x.op == 'site' and x.args[2] is EMPTY and x.args[1].op == 'seq' and len(x.args[1].args) == 1 and x.args[1].args[0].op == 'one':
                    return bv, g.args[1], x.args[0], x.args[1].args[0].args[0]
                if x.op == 'site' and x.args[1] is EMPTY and x.args[2].op == 'seq' and len(x.args[2].args) == 1 and x.args[2].args[0].op == 'one':
                    return bv, g.args[1], not_(x.args[0]), x.args[2].args[0].args[0]
            return None
        if s.op == 'seq' and any(x.op in ('site',) or x.op == 'G' and not m.simple_g(x) for x in s.args): return None
        bv = sym('i', True)
        return bv, ln(s), TRUE, idx(s, bv)
    def simple_g(m, g):
        b = g.args[2]
        return b.op == 'seq' and len(b.args) == 1 and b.args[0].op == 'one'

    def foreach(m, st, fr, s, body, label=None, lid=None):
        """run body(state, elem) for each element of the sequence term s"""
        if s.op in ('mutit', 'mutenum', 'mutzip', 'mutzipr'):
            n, el = m.mutelems(s)
            return m.loop(st, fr, n, lambda q, b: body(q, el(b)), label, lid)
        if s.op == 'ite':
            return m.branch(st, s.args[0], lambda q: m.foreach(q, fr, s.args[1], body, label, lid), lambda q: m.foreach(q, fr, s.args[2], body, label, lid))
        if s.op == 'arr' and label is None and lid is None and len(s.args) <= 16:
            for e in s.args: body(st, e)
            return UNIT
        if s.op == 'arr' and len(s.args) <= 16 and any(x.op == 'ref' for e in s.args for x in walk(e)):
            # places: written one after the other
            broke = []
            for e in s.args:
                def go(q, b, e=e):
                    r = body(q, e)
                    if fr.loops and fr.loops[-1].breaks: broke.append(1)
                    return r
                m.loop(st, fr, I(1), go, label, lid)
                if st.dead: break
            if broke: st.store = {c: unk('break') for c in st.store}
            return UNIT
        v = m.view(s)
        if v is not None:
            bv, n, c, e = v
            ars = [x.args[0] for x in walk(e) if x.op == 'idx' and x.args[0].op == 'arr' and bv in x.args[1].fv and any(y.op == 'ref' for y in x.args[0].args)]
            if ars:
                # places chosen by position: written one after the other
                k = next((len(a.args) for a in ars if len(a.args) <= 16 and nonneg(sub(I(len(a.args)), n))), None)
                if k is None:
                    st.store = {x: unk('place') for x in st.store}
                    return UNIT
                broke = []
                for j in range(k):
                    def go(q, b, j=j):
                        r = body(q, subst(e, {bv: I(j)})); fl = fr.loops and fr.loops[-1].breaks
                        if fl: broke.append(1)
                        return r
                    m.branch(st, assume(and_(ge(n, I(j + 1)), subst(c, {bv: I(j)})), st.pc), lambda q: m.loop(q, fr, I(1), go, label, lid), lambda q: UNIT)
                    if st.dead: break
                if broke: st.store = {x: unk('break') for x in st.store}
                return UNIT
            if c is TRUE:
                return m.loop(st, fr, n, lambda q, b: body(q, subst(e, {bv: b})), label, lid)
            return m.loop(st, fr, n, lambda q, b: m.branch(q, subst(c, {bv: b}), lambda z: body(z, subst(e, {bv: b})), lambda z: UNIT), label, lid)
        if s.op == 'seq':
            for seg in s.args:
                if st.dead: break
                m.foreach_seg(st, fr, seg, body, label, lid)
            return UNIT
        return m.loop(st, fr, ln(s), lambda q, b: body(q, idx(s, b)), label, lid)
    def mutelems(m, s):
        if s.op == 'mutit': return s.args[2], (lambda b: raw('ref', s.args[0], s.args[1] + (('idx', b),)))
        if s.op == 'mutenum':
            n, f = m.mutelems(s.args[0]); return n, (lambda b: tup(b, f(b)))
        n, f = m.mutelems(s.args[0]); o = s.args[1]
        k = mnt(n, ln(o))
        if s.op == 'mutzip': return k, (lambda b: tup(f(b), idx(o, b)))
        return k, (lambda b: tup(idx(o, b), f(b)))
    def foreach_seg(m, st, fr, seg, body, label, lid):
        if seg.op == 'one': return body(st, seg.args[0])
        if seg.op == 'site':
            return m.branch(st, seg.args[0], lambda q: m.foreach(q, fr, seg.args[1], body, label, lid), lambda q: m.foreach(q, fr, seg.args[2], body, label, lid))
        if seg.op == 'G':
            return m.loop(st, fr, seg.args[1], lambda q, b: m.foreach(q, fr, subst(seg.args[2], {seg.args[0]: b}), body, label, lid), label, lid)
        return m.foreach(st, fr, seg, body, label, lid)
