"""Automatic inductive invariants for loops whose trip count is symbolic.

Header state is described as: every location (phi register or memory cell) changed by the body is
either linear in the iteration number n (v = v0 + c*n) or havocked; inequalities found by Houdini over
the comparisons that occur in the body.  Iterations that touch the ghost index are executed exactly
(phase splitting): loop = generic iterations; the touching iteration; generic iterations; ...
Initiation, consecution of every conjunct are discharged with the solver."""
import z3
import engine as E
from engine import Ptr, UNDEF, LoopFail, PathEnd, Unsupported, LoopCtx, simp, bv, is_sym, Budget
from irparse import size_of


def mkctx(L, mode, data, touch0, phase):
    c = LoopCtx()
    c.loop = L; c.mode = mode; c.count = 0; c.snap = None; c.shared = {}; c.touch0 = touch0
    c.data = data; c.phase = phase
    return c


def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and same(a.off, b.off)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    # null pointer vs integer zero cells
    if isinstance(a, Ptr) and a.o == 0 and isinstance(b, int): return a.off == b
    if isinstance(b, Ptr) and b.o == 0 and isinstance(a, int): return b.off == a
    return False


def getloc(s, st, loc):
    if loc[0] == 'r': return st.frames[-1].regs[loc[1]]
    _, o, off, size = loc
    if o not in st.mem and o in s.gname: s.make_global(st, o, s.gname[o])
    return s.read_cell(st.mem[o], off, size)


def setloc(s, st, loc, v):
    if loc[0] == 'r':
        st.frames[-1].regs[loc[1]] = v
        return
    _, o, off, size = loc
    ob = s.wobj(st, st.mem[o])
    s.write_cell(ob, off, size, v)


def locwidth(s, fn, L, loc):
    if loc[0] == 'm': return loc[3] * 8
    for ph in fn.blocks[L.header].phis:
        if ph.d == loc[1]:
            if ph.ty.k == 'int': return ph.ty.w
            return 64
    return 64


def changed(s, H, B, phis):
    """locations whose value differs between header state H and back-edge state B"""
    out = []
    for r in phis:
        if not same(H.frames[-1].regs[r], B.frames[-1].regs[r]): out.append(('r', r))
    for oid, ho in H.mem.items():
        bo_ = B.mem.get(oid)
        if bo_ is ho: continue
        if bo_ is None and oid in s.gname: continue
        if bo_ is None:
            raise LoopFail('object released in loop body: %s %s %s' % (oid, ho.kind, ho.name))
        if bo_.alive != ho.alive: raise LoopFail('object freed in loop body')
        if bo_.fill != ho.fill and bo_.fill is not None: raise LoopFail('bulk fill in loop body')
        keys = {}
        for k, c in ho.cells.items(): keys[k] = c[0]
        for k, c in bo_.cells.items():
            if k in keys and keys[k] != c[0]: keys[k] = max(keys[k], c[0])
            else: keys[k] = c[0]
        for k, sz in keys.items():
            hv = s.read_cell(ho, k, sz); bvv = s.read_cell(bo_, k, sz)
            if not same(hv, bvv): out.append(('m', oid, k, sz))
    return out


def delta(s, a, b, w):
    """b - a as an int constant or None"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.o != b.o or a.o == 0: return None
        d = simp(E.ov(b.off) - E.ov(a.off))
        return d if isinstance(d, int) else None
    if isinstance(a, Ptr) or isinstance(b, Ptr) or a is UNDEF or b is UNDEF or a is None or b is None: return None
    if isinstance(a, (float, tuple)) or isinstance(b, (float, tuple)): return None
    if w == 1: return None
    d = simp(bv(b, w) - bv(a, w))
    if isinstance(d, int): return d
    return None


def linval(v0, c, n, w):
    if isinstance(v0, Ptr):
        return Ptr(v0.o, simp(E.ov(v0.off) + c * n))
    return E.mk(bv(v0, w) + c * n, w)


def valeq(s, st, a, b, w):
    """is a == b valid under st?"""
    if same(a, b): return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.o != b.o: return False
        e = simp(E.ov(a.off) == E.ov(b.off))
    elif isinstance(a, (Ptr, float, tuple)) or isinstance(b, (Ptr, float, tuple)) or a is UNDEF or b is UNDEF: return False
    elif w == 1: e = simp(E.bo(a) == E.bo(b))
    else: e = simp(bv(a, w) == bv(b, w))
    if isinstance(e, int): return bool(e)
    return s.check(st.cons, z3.Not(e))[0] == 'unsat'


def valid(s, cons, e):
    e = simp(e)
    if isinstance(e, int): return bool(e)
    return s.check(cons, z3.Not(e))[0] == 'unsat'


def filter_valid(s, cons, items):
    """items: [(key, formula)] -> the keys whose formula follows from cons"""
    items = [(k, simp(f)) for k, f in items]
    out = [k for k, f in items if isinstance(f, int) and f]
    rest = [(k, f) for k, f in items if not isinstance(f, int)]
    while rest:
        r, m = s.check(cons, z3.Not(z3.And(*[f for _, f in rest])) if len(rest) > 1 else z3.Not(rest[0][1]))
        if r == 'unsat':
            out += [k for k, _ in rest]
            break
        if r == 'sat':
            n0 = len(rest)
            rest = [(k, f) for k, f in rest if not z3.is_false(m.eval(f, model_completion=True))]
            if len(rest) < n0: continue
        # no progress: one by one
        out += [k for k, f in rest if valid(s, cons, f)]
        break
    return out


def run_body(s, H, L, phase):
    d = H.fork(s)
    data = dict(back=[], exits=[])
    d.frames[-1].loops.append(mkctx(L, 'discover', data, d.touch, phase))
    s.suppress += 1
    try:
        s.explore([d])
    except Unsupported as e:
        raise LoopFail(str(e))
    finally:
        s.suppress -= 1
    back = [b for b in data['back'] if b.touch == H.touch]
    return back, data['exits'], [b for b in data['back'] if b.touch != H.touch]


def fresh_like(s, v, w, b=None):
    if isinstance(v, Ptr):
        if isinstance(b, Ptr) and b.o == v.o and v.o != 0:
            return Ptr(v.o, s.fresh(64, 'hp'))
        return UNDEF
    if v is UNDEF or v is None or isinstance(v, (tuple, float)): return UNDEF
    if isinstance(b, Ptr): return UNDEF
    return s.fresh(w, 'hv')


def atoms(e, out, seen):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if not z3.is_app(e): return
    k = e.decl().kind()
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT):
        if z3.is_int(e.arg(0)):
            out.append((e.arg(0), e.arg(1)))
            return
    if z3.is_bool(e):
        for c in e.children(): atoms(c, out, seen)


def mentions(e, ids, memo):
    k = e.get_id()
    r = memo.get(k)
    if r is not None: return r
    if k in ids: r = True
    else:
        r = False
        for c in e.children():
            if mentions(c, ids, memo): r = True; break
    memo[k] = r
    return r


def first_iteration(s, base, b, loc):
    v0 = getloc(s, base, loc)
    v1 = getloc(s, b, loc)
    if not (isinstance(v0, int) and isinstance(v1, int)): return False
    return loc[0] == 'm' and loc[3] == 1 and v0 in (0, 1) and v1 in (0, 1) and v0 != v1


def run_invariant(s, base, depth, L, phase, peeled=False):
    s.stats['loops'] += 1
    try:
        _run_invariant(s, base, depth, L, phase, peeled)
    except LoopFail as e:
        if not s.opts.get('allow_forced', True): raise Unsupported('no loop invariant found: %s in %s' % (e, L.fn.name))
        s.stats['bounded'].append('%s: %s' % (L.fn.name, e))
        st = base.fork(s)
        st.frames[-1].loops.append(mkctx(L, 'forced', None, st.touch, phase))
        s.work.append(st)


def _run_invariant(s, base, depth, L, phase, peeled=False):
    fn = base.frames[-1].fn
    phis = [ph.d for ph in fn.blocks[L.header].phis]
    back, exits, touched = run_body(s, base, L, phase)
    # make sure lazily created mutable globals exist in the header state
    for b in back + touched + exits:
        for oid in list(b.mem):
            if oid in s.gname and oid not in base.mem and s.gname[oid] in s.m.globals: s.make_global(base, oid, s.gname[oid])
    if not back:
        st = base.fork(s)
        st.frames[-1].loops.append(mkctx(L, 'final', dict(spec={}, cands=[], base=base, n=None), st.touch, phase))
        s.work.append(st)
        return
    if not peeled and any(first_iteration(s, base, b, loc) for b in back for loc in changed(s, base, b, phis)):
        # the first iteration differs (it clears or sets a flag): executed on its own
        st = base.fork(s)
        st.frames[-1].loops.append(mkctx(L, 'peel', None, st.touch, phase))
        s.work.append(st)
        return
    n = s.fresh(64, 'iter')
    spec = {}      # loc -> ('lin', c) | ('havoc', value)
    for b in back:
        for loc in changed(s, base, b, phis):
            w = locwidth(s, fn, L, loc)
            a = getloc(s, base, loc)
            d = delta(s, a, getloc(s, b, loc), w)
            if d is not None and (loc not in spec or spec[loc] == ('lin', d)): spec[loc] = ('lin', d)
            else: spec[loc] = ('havoc', fresh_like(s, a, w, getloc(s, b, loc)))
    for b in back:
        for loc, sp in list(spec.items()):
            if sp[0] == 'lin':
                w = locwidth(s, fn, L, loc)
                a = getloc(s, base, loc)
                if delta(s, a, getloc(s, b, loc), w) != sp[1]:
                    spec[loc] = ('havoc', fresh_like(s, a, w, getloc(s, b, loc)))
    cands = None
    dropped = set()
    for rnd in range(12):
        H = base.fork(s)
        hsyms = []
        for loc, sp in spec.items():
            w = locwidth(s, fn, L, loc)
            v0 = getloc(s, base, loc)
            if sp[0] == 'lin': setloc(s, H, loc, linval(v0, sp[1], n, w))
            else:
                setloc(s, H, loc, sp[1])
                x = sp[1].off if isinstance(sp[1], Ptr) else sp[1]
                if is_sym(x): hsyms.append((x, loc))
        H.model = None
        H.cons.append(n >= 0)
        for loc, sp in spec.items():
            # header values are machine values of their width
            w = locwidth(s, fn, L, loc)
            v = getloc(s, H, loc)
            if is_sym(v) and not z3.is_bool(v) and w > 1: H.cons.append(s.rng(v, w))
        if any(sp[0] == 'havoc' for sp in spec.values()): H.imprecise = True
        if cands is not None:
            for c in cands: H.cons.append(c)
        if s.check(H.cons, None)[0] == 'unsat': raise LoopFail('contradictory invariant')
        nc = len(H.cons)
        back, exits, touched = run_body(s, H, L, phase)
        redo = False
        for b in back + touched + exits:
            for oid in list(b.mem):
                if oid in s.gname and oid not in base.mem and s.gname[oid] in s.m.globals:
                    s.make_global(base, oid, s.gname[oid]); redo = True
        if redo: continue
        upd = False
        # consecution of the equalities
        for b in back:
            for loc in changed(s, H, b, phis):
                w = locwidth(s, fn, L, loc)
                bvv = getloc(s, b, loc)
                sp = spec.get(loc)
                if sp is None:
                    spec[loc] = ('havoc', fresh_like(s, getloc(s, base, loc), w, bvv)); upd = True
                elif sp[0] == 'lin':
                    if not valeq(s, b, bvv, linval(getloc(s, base, loc), sp[1], n + 1, w), w):
                        spec[loc] = ('havoc', fresh_like(s, getloc(s, base, loc), w, bvv)); upd = True
                elif sp[0] == 'havoc':
                    hv = sp[1]
                    if isinstance(hv, Ptr) and not (isinstance(bvv, Ptr) and bvv.o == hv.o):
                        spec[loc] = ('havoc', UNDEF); upd = True
                    elif is_sym(hv) and (bvv is UNDEF or isinstance(bvv, Ptr)):
                        spec[loc] = ('havoc', UNDEF); upd = True
            for loc, sp in spec.items():
                if sp[0] == 'lin':
                    w = locwidth(s, fn, L, loc)
                    if not valeq(s, b, getloc(s, b, loc), linval(getloc(s, base, loc), sp[1], n + 1, w), w):
                        spec[loc] = ('havoc', fresh_like(s, getloc(s, base, loc), w, getloc(s, b, loc))); upd = True
                        break
        if upd:
            cands = None
            continue
        # inequalities
        sub0 = [(n, z3.IntVal(0))]
        for x, loc in hsyms:
            v0 = getloc(s, base, loc)
            if v0 is UNDEF: continue
            if isinstance(v0, Ptr): sub0.append((x, E.ov(v0.off)))
            else: sub0.append((x, E.bo(v0) if z3.is_bool(x) else bv(v0, locwidth(s, fn, L, loc))))
        if cands is None:
            pairs = []
            seen = set()
            for b in back + exits + touched:
                for c in b.cons[nc:]: atoms(c, pairs, seen)
            ids = {n.get_id()} | {x.get_id() for x, _ in hsyms}
            memo = {}
            cl = []
            keys = set()

            def addc(c):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c): return
                k = c.get_id()
                if k not in keys:
                    keys.add(k); cl.append(c)
            for l, r in pairs:
                if not (mentions(l, ids, memo) or mentions(r, ids, memo)): continue
                for shift in (0, 1):
                    if shift:
                        l2 = z3.substitute(l, (n, n - 1)); r2 = z3.substitute(r, (n, n - 1))
                    else: l2, r2 = l, r
                    for c in (l2 <= r2, l2 < r2, l2 >= r2, l2 > r2, l2 == r2, l2 != r2): addc(c)
                    # relative to the initial order
                    l0 = z3.substitute(l2, *sub0); r0 = z3.substitute(r2, *sub0)
                    addc(z3.Or(l0 < r0, l2 >= r2)); addc(z3.Or(l0 > r0, l2 <= r2))
                    addc(z3.Or(l0 <= r0, l2 > r2)); addc(z3.Or(l0 >= r0, l2 < r2))
            # counters in lock step: x - y and x + y keep their initial value
            iv = [(x, dict((a.get_id(), b) for a, b in sub0).get(x.get_id())) for x, loc in hsyms if not z3.is_bool(x)]
            iv = [(x, v) for x, v in iv if v is not None]
            if len(iv) <= 10:
                for i in range(len(iv)):
                    for j in range(i):
                        addc(iv[i][0] - iv[j][0] == iv[i][1] - iv[j][1])
                        addc(iv[i][0] + iv[j][0] == iv[i][1] + iv[j][1])
                    for c1 in (1, -1):
                        addc(iv[i][0] + c1 * n >= iv[i][1]); addc(iv[i][0] + c1 * n <= iv[i][1])
                    addc(iv[i][0] >= iv[i][1]); addc(iv[i][0] <= iv[i][1]); addc(iv[i][0] >= 0)
            # initiation
            s.stats['loopcand'] += len(cl)
            for x, loc in hsyms:
                v0 = getloc(s, base, loc)
                if v0 is UNDEF: cl = [c for c in cl if not mentions(c, {x.get_id()}, {})]
            ok = set(filter_valid(s, base.cons, [(i, z3.substitute(c, *sub0)) for i, c in enumerate(cl)]))
            cands = [c for i, c in enumerate(cl) if i in ok]
            if cands: continue   # re-run with candidates assumed
        # consecution of the inequalities
        alive = list(range(len(cands)))
        for b in back:
            if not alive: break
            sub1 = [(n, n + 1)]
            bad = set()
            for x, loc in hsyms:
                v = getloc(s, b, loc)
                if v is UNDEF: bad.add(x.get_id())
                elif isinstance(v, Ptr): sub1.append((x, E.ov(v.off)))
                else: sub1.append((x, E.bo(v) if z3.is_bool(x) else bv(v, locwidth(s, fn, L, loc))))
            if bad:
                alive = [i for i in alive if not mentions(cands[i], bad, {})]
            alive = filter_valid(s, b.cons, [(i, z3.substitute(cands[i], *sub1)) for i in alive])
        keep = [cands[i] for i in sorted(alive)]
        if len(keep) == len(cands): break
        cands = keep
    else:
        raise LoopFail('invariant iteration did not converge')
    s.stats['loop_inv'] = s.stats.get('loop_inv', 0) + 1
    st = H.fork(s)
    st.touch = base.touch
    data = dict(spec=spec, cands=cands, base=base, n=n, hsyms=hsyms)
    st.frames[-1].loops.append(mkctx(L, 'final', data, st.touch, phase))
    s.work.append(st)


def check_preserved(s, st, c):
    """final run reached the back edge without touching the ghost index: consecution obligation"""
    d = c.data
    name = 'loop invariant preserved: ' + c.loop.fn.name[:80]
    o = s.obl.setdefault(name, dict(kind='loop', checked=0, failed=0, trivial=0))
    o['checked'] += 1
    if d['n'] is None:
        raise Unsupported('unexpected iteration in loop of ' + c.loop.fn.name)
    n = d['n']
    base = d['base']
    for loc, sp in d['spec'].items():
        if sp[0] == 'lin':
            w = locwidth(s, c.loop.fn, c.loop, loc)
            if not valeq(s, st, getloc(s, st, loc), linval(getloc(s, base, loc), sp[1], n + 1, w), w):
                raise Unsupported('loop invariant not preserved in ' + c.loop.fn.name)
