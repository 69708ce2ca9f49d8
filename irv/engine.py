"""Deductive verifier over LLVM IR: path-wise symbolic execution with z3, automatic inductive
loop invariants (linear + Houdini inequalities, ghost-index phase splitting), C++ exceptions,
heap objects.  Every verif_assert and every implicit safety condition is a named obligation that
has to be valid (unsat negation) for all inputs."""
import re
import time
import z3
from irparse import *
from irparse import sgn

z3.set_param('rewriter.hi_fp_unspecified', False)


class PathEnd(Exception):
    pass


class Unsupported(Exception):
    pass


class LoopFail(Exception):
    pass


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off): s.o = o; s.off = off

    def __repr__(s): return 'Ptr(%s,%s)' % (s.o, s.off)


NULLP = Ptr(0, 0)


class Obj:
    __slots__ = ('id', 'size', 'cells', 'alive', 'kind', 'name', 'own', 'fill', 'log', 'ro')

    def __init__(s, id, size, kind, name, own):
        s.id = id; s.size = size; s.cells = {}; s.alive = True; s.kind = kind; s.name = name; s.own = own
        s.fill = None; s.log = None; s.ro = False

    def copy(s, own):
        o = Obj(s.id, s.size, s.kind, s.name, own)
        o.cells = dict(s.cells); o.alive = s.alive; o.fill = s.fill; o.log = s.log; o.ro = s.ro
        return o


class LoopCtx:
    __slots__ = ('loop', 'mode', 'count', 'snap', 'shared', 'touch0', 'data', 'phase', 'symexit')

    def __init__(s): s.symexit = False

    def copy(s):
        c = LoopCtx()
        c.loop = s.loop; c.mode = s.mode; c.count = s.count; c.snap = s.snap; c.shared = s.shared
        c.touch0 = s.touch0; c.data = s.data; c.phase = s.phase; c.symexit = s.symexit
        return c


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ins', 'pc', 'ret', 'allocas', 'loops', 'onret', 'call')

    def copy(s):
        f = Frame()
        f.fn = s.fn; f.regs = s.regs[:]; f.blk = s.blk; f.ins = s.ins; f.pc = s.pc; f.ret = s.ret
        f.allocas = s.allocas[:]; f.loops = [c.copy() for c in s.loops] if s.loops else []
        f.onret = s.onret; f.call = s.call
        return f


class State:
    __slots__ = ('frames', 'mem', 'cons', 'own', 'touch', 'ghost', 'caught', 'infl', 'model', 'known',
                 'trace', 'imprecise', 'steps', 'path')

    def fork(s, eng):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.cons = s.cons[:]
        s.own = eng.token(); n.own = eng.token()
        n.touch = s.touch
        n.ghost = dict(s.ghost)
        n.caught = s.caught[:]
        n.infl = s.infl
        n.model = s.model
        n.known = dict(s.known)
        n.trace = s.trace[:]
        n.imprecise = s.imprecise
        n.steps = s.steps
        n.path = s.path[:]
        return n


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    """register value of width w -> z3 Int (signed interpretation)"""
    if isinstance(v, int):
        return z3.IntVal(sgn(v & ((1 << w) - 1), w))
    if z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if w > 1 else z3.If(v, z3.IntVal(-1), z3.IntVal(0))
    return v


def ov(v):
    """pointer offset -> z3 Int"""
    return z3.IntVal(v) if isinstance(v, int) else v


def bo(v):
    if isinstance(v, int): return z3.BoolVal(bool(v))
    return v


def simp(e):
    """z3 expr -> python int (signed value / truth value) if constant, else simplified expr"""
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e


def mk(e, w):
    """z3 Int expr (already in range) -> register value of width w"""
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long() & ((1 << w) - 1)
    return e


def ite_consts(e):
    """If(b,c1,c2) with constant arms -> (b,c1,c2) (signed) else None"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        b, x, y = e.arg(0), e.arg(1), e.arg(2)
        if z3.is_int_value(x) and z3.is_int_value(y):
            return b, x.as_long(), y.as_long()
    return None


STD_TI_BASE = {
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt12future_error': '_ZTISt11logic_error',
    '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt17bad_function_call': '_ZTISt9exception',
    '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
    '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt18bad_variant_access': '_ZTISt9exception',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
}

THROWERS = {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt9bad_alloc',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt20__throw_future_errori': '_ZTISt12future_error',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
    '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
}


class Engine:
    def __init__(s, module, opts=None):
        s.m = module
        s.opts = opts or {}
        s.solver = z3.Solver()
        s.solver.set('timeout', s.opts.get('solver_timeout_ms', 3000))
        s.sstack = []
        s.nid = 100
        s.gids = {}      # global name -> id
        s.gname = {}
        s.funcid = {}    # id -> function name
        s.tok = 0
        s.work = []
        s.obl = {}       # name -> dict(checked, failed)
        s.fail = []      # failures
        s.covers = {}
        s.called = {}    # functions executed (real code)
        s.stats = dict(paths=0, steps=0, forks=0, queries=0, qtime=0.0, loops=0, loopcand=0, bounded=[])
        s.suppress = 0
        s.quots = {}
        s.monitors = False
        s.symn = 0
        s.tids = {}
        s.ufs = {}
        s.deadline = None
        s.maxsteps = s.opts.get('max_steps', 4000000)
        s.deepest = 0
        s.unsup = []
        s.stubs = {}
        s.templ = {}
        s.EX = {
            'ret': s.x_ret, 'br': s.x_br, 'switch': s.x_switch, 'call': s.x_call, 'invoke': s.x_call,
            'load': s.x_load, 'store': s.x_store, 'gep': s.x_gep, 'alloca': s.x_alloca, 'icmp': s.x_icmp,
            'select': s.x_select, 'extractvalue': s.x_extractvalue, 'insertvalue': s.x_insertvalue,
            'landingpad': s.x_landingpad, 'resume': s.x_resume, 'unreachable': s.x_unreachable,
            'freeze': s.x_freeze, 'fence': s.x_nop, 'atomicrmw': s.x_atomicrmw, 'cmpxchg': s.x_cmpxchg,
            'unsupported': s.x_unsup, 'asm': s.x_asm, 'fcmp': s.x_fcmp, 'fneg': s.x_unsup,
        }
        for o in BINOPS: s.EX[o] = s.x_bin
        for o in CASTS: s.EX[o] = s.x_cast
        import intrinsics
        s.INTR = intrinsics.table(s)
        for nm in list(s.INTR):   # a contract file may give its own contract of these
            if nm in s.m.funcs and nm.startswith(('pthread_', '_ZNSt18condition', '_ZNSt6chrono', 'sched_')): del s.INTR[nm]
        s.intr_prefix = intrinsics.prefixes(s)

    # ------------------------------------------------------------ misc
    def token(s):
        s.tok += 1
        return s.tok

    def newid(s):
        s.nid += 1
        return s.nid

    def fresh(s, w, name='h'):
        s.symn += 1
        if w == 1: return z3.Bool('%s!%d' % (name, s.symn))
        return z3.Int('%s!%d' % (name, s.symn))

    def fresh_in(s, st, w, name='h'):
        v = s.fresh(w, name)
        if w > 1: st.cons.append(s.rng(v, w))
        if w > 1 and st.model is not None and not z3.is_true(st.model.eval(st.cons[-1], model_completion=True)): st.model = None
        return v

    @staticmethod
    def rng(e, w):
        return z3.And(e >= -(1 << (w - 1)), e < (1 << (w - 1)))

    def valid_q(s, st, c):
        """is the Bool expr c implied by the path condition (cached)"""
        if isinstance(c, int): return bool(c)
        c = simp(c)
        if isinstance(c, int): return bool(c)
        k = st.known.get(c.get_id())
        if k is not None: return k[1]
        kk = ('v', c.get_id())
        q = st.known.get(kk)
        if q is not None and q[2] == len(st.cons): return False
        if st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)): return False
        r, m = s.check(st.cons, z3.Not(c), False)
        if r == 'unsat':
            st.known[c.get_id()] = (c, True)
            return True
        st.known[kk] = (c, False, len(st.cons))
        return False

    def wrap(s, st, e, w):
        """Int expr -> register value of width w, modular"""
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long() & ((1 << w) - 1)
        if st is not None and s.valid_q(st, s.rng(e, w)): return e
        M = 1 << w; H = 1 << (w - 1)
        return z3.simplify(z3.If(e >= H, z3.If(e < H + M, e - M, ((e + H) % M) - H), z3.If(e < -H, z3.If(e >= -H - M, e + M, ((e + H) % M) - H), e)))

    def nonneg(s, st, e):
        if z3.is_int_value(e): return e.as_long() >= 0
        return s.valid_q(st, e >= 0)

    def ucmp(s, st, pred, x, y):
        if s.nonneg(st, x) and s.nonneg(st, y):
            ux, uy = x, y
        else:
            ux = z3.If(x >= 0, x, x + (1 << 64)); uy = z3.If(y >= 0, y, y + (1 << 64))
        if pred == 'ult': return simp(ux < uy)
        if pred == 'ule': return simp(ux <= uy)
        if pred == 'ugt': return simp(ux > uy)
        return simp(ux >= uy)

    def new_state(s):
        st = State()
        st.frames = []; st.mem = {}; st.cons = []; st.own = s.token(); st.touch = 0; st.ghost = {}
        st.caught = []; st.infl = None; st.model = None; st.known = {}; st.trace = []; st.imprecise = False
        st.steps = 0; st.path = []
        return st

    # ------------------------------------------------------------ solver
    def sync(s, cons):
        k = 0
        st = s.sstack
        n = min(len(st), len(cons))
        while k < n and st[k] is cons[k]: k += 1
        if k < len(st):
            s.solver.pop(len(st) - k)
            del st[k:]
        for c in cons[k:]:
            s.solver.push(); s.solver.add(c); st.append(c)

    def check(s, cons, extra, hard=True):
        """-> 'sat'/'unsat'/'unknown', model"""
        s.sync(cons)
        t0 = time.time()
        s.stats['queries'] += 1
        if s.deadline and t0 > s.deadline: raise Budget('time budget exceeded')
        r = s.solver.check(extra) if extra is not None else s.solver.check()
        dt = time.time() - t0
        s.stats['qtime'] += dt
        if r == z3.sat: return 'sat', s.solver.model()
        if r == z3.unsat: return 'unsat', None
        if not hard: return 'unknown', None
        return s.check_fallback(cons, extra)

    def check_fallback(s, cons, extra):
        t0 = time.time()
        sv = z3.Solver()
        sv.set('timeout', 60000)
        sv.add(*cons)
        if extra is not None: sv.add(extra)
        r = sv.check()
        s.stats['qtime'] += time.time() - t0
        s.stats['fallbacks'] = s.stats.get('fallbacks', 0) + 1
        if r == z3.sat: return 'sat', sv.model()
        if r == z3.unsat: return 'unsat', None
        return 'unknown', None

    def add(s, st, c):
        """add constraint c (z3 bool) known to be feasible"""
        st.cons.append(c)
        st.known[c.get_id()] = (c, True)
        if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)):
            st.model = None

    def feasible(s, st, c):
        """c z3 bool: is cons & c satisfiable. Returns (bool, model)"""
        if st.model is not None:
            if z3.is_true(st.model.eval(c, model_completion=True)): return True, st.model
        r, m = s.check(st.cons, c, False)
        if r == 'sat': return True, m
        if r == 'unsat': return False, None
        return True, None     # unknown: keep exploring (sound)

    def both(s, st, c):
        """c: int or z3 Bool -> (can be true, can be false)"""
        if isinstance(c, int): return (bool(c), not c)
        c = simp(c)
        if isinstance(c, int): return (bool(c), not c)
        k = st.known.get(c.get_id())
        if k is not None: return (k[1], not k[1])
        t, mt = s.feasible(st, c)
        nc = z3.Not(c)
        f, mf = s.feasible(st, nc)
        if t and not f: st.known[c.get_id()] = (c, True)
        if f and not t: st.known[c.get_id()] = (c, False)
        return t, f

    def decide(s, st, c, retry=True):
        """path-split on c.  The state with not c re-executes the current instruction."""
        if isinstance(c, int): return bool(c)
        c = simp(c)
        if isinstance(c, int): return bool(c)
        t, f = s.both(st, c)
        if t and f:
            s.stats['forks'] += 1
            o = st.fork(s)
            fr = o.frames[-1]
            fr.pc -= 1
            nc = z3.Not(c)
            s.add(o, nc)
            o.known[c.get_id()] = (c, False)
            s.work.append(o)
            s.add(st, c)
            return True
        return t

    def concretize(s, st, e, limit=24):
        if isinstance(e, int): return e
        e = simp(e)
        if isinstance(e, int): return e
        k = ('conc', e.get_id())
        cnt = st.ghost.get(k, 0)
        if cnt > limit: raise Unsupported('symbolic value with more than %d cases: %s' % (limit, str(e)[:200]))
        if st.model is None:
            r, m = s.check(st.cons, None)
            if r == 'unsat': raise PathEnd()
            if r != 'sat': raise Unsupported('solver unknown')
            st.model = m
        v = st.model.eval(e, model_completion=True).as_long()
        st.ghost[k] = cnt + 1
        if s.decide(st, e == v):
            st.ghost.pop(k, None)
            return v
        raise Unsupported('concretize')

    # ------------------------------------------------------------ obligations
    def where(s, st):
        out = []
        for fr in reversed(st.frames[-12:]):
            f, l = None, None
            k = fr.pc - 1
            if 0 <= k < len(fr.ins):
                d = fr.ins[k].line
                if d is not None: f, l = s.m.srcline(d)
            out.append('%s:%s in %s' % (f, l, fr.fn.name))
        return out

    def repo_where(s, st):
        for w in s.where(st):
            if '/boost/asynchronous/' in w and '/verif/' not in w: return w
        for w in s.where(st):
            return w
        return '?'

    def oblig(s, st, cond, name, kind='assert'):
        """cond must hold on this path. continues under the assumption that it does."""
        if s.suppress:
            if not isinstance(cond, int):
                c = simp(cond)
                if not isinstance(c, int):
                    if not s.feasible(st, c)[0]: raise PathEnd()
                    s.add(st, c)
                    return
                cond = c
            if not cond: raise PathEnd()
            return
        o = s.obl.get(name)
        if o is None: o = s.obl[name] = dict(kind=kind, checked=0, failed=0, trivial=0)
        o['checked'] += 1
        if isinstance(cond, int):
            o['trivial'] += 1
            if cond: return
            r, m = s.check(st.cons, None)
            if r == 'unsat': raise PathEnd()
            s.report(st, name, m, r)
            raise PathEnd()
        c = simp(cond)
        if isinstance(c, int): return s.oblig2(st, c, name, o)
        k = st.known.get(c.get_id())
        if k is not None and k[1]: return
        nc = z3.Not(c)
        if st.model is not None and z3.is_true(st.model.eval(nc, model_completion=True)):
            s.report(st, name, st.model, 'sat')
        else:
            r, m = s.check(st.cons, nc)
            if r == 'sat': s.report(st, name, m, 'sat')
            elif r == 'unknown': s.report(st, name, None, 'unknown')
            else:
                st.known[c.get_id()] = (c, True)
                return
        # continue assuming
        if not s.feasible(st, c)[0]: raise PathEnd()
        s.add(st, c)

    def oblig2(s, st, c, name, o):
        o['trivial'] += 1
        if c: return
        r, m = s.check(st.cons, None)
        if r == 'unsat': raise PathEnd()
        s.report(st, name, m, r)
        raise PathEnd()

    def report(s, st, name, model, r):
        o = s.obl.setdefault(name, dict(kind='safety', checked=1, failed=0, trivial=0))
        o['failed'] += 1
        if o['failed'] > 3: return
        inputs = []
        ufs = {}
        if model is not None:
            for nm, e, w in st.trace:
                try:
                    v = e if isinstance(e, int) else model.eval(e, model_completion=True)
                    if not isinstance(v, int):
                        v = int(z3.is_true(v)) if z3.is_bool(v) else v.as_long()
                    inputs.append([nm, v])
                except Exception:
                    inputs.append([nm, 0])
            for (nm, k), f in s.ufs.items():
                try:
                    fi = model[f]
                    if fi is None: continue
                    val = lambda x: int(z3.is_true(x)) if z3.is_bool(x) else x.as_long()
                    if k == 0:
                        ufs[nm] = dict(els=val(model.eval(f(), model_completion=True)), tab=[])
                        continue
                    fi = fi if isinstance(fi, z3.FuncInterp) else None
                    if fi is None: continue
                    tab = []
                    for ei in range(fi.num_entries()):
                        en = fi.entry(ei)
                        tab.append([[val(en.arg_value(j)) for j in range(k)], val(en.value())])
                    try: els = val(fi.else_value())
                    except Exception: els = 0
                    ufs[nm] = dict(els=els, tab=tab)
                except Exception:
                    pass
        s.fail.append(dict(obligation=name, result=r, inputs=inputs, ufs=ufs, imprecise=st.imprecise, where=s.where(st),
                           path=st.path[-40:]))

    # ------------------------------------------------------------ memory
    def alloc(s, st, size, kind, name=None):
        i = s.newid()
        st.mem[i] = Obj(i, size, kind, name, st.own)
        return Ptr(i, 0)

    def gid(s, name):
        i = s.gids.get(name)
        if i is None:
            i = s.gids[name] = s.newid()
            s.gname[i] = name
            if name in s.m.funcs or (name not in s.m.globals):
                s.funcid[i] = name
        return i

    def obj(s, st, i, what='access'):
        o = st.mem.get(i)
        if o is None:
            nm = s.gname.get(i)
            if nm is not None and nm in s.m.globals:
                o = s.make_global(st, i, nm)
            else:
                return None
        return o

    def make_global(s, st, i, nm):
        ty, init, isconst = s.m.parse_global(nm)
        o = Obj(i, size_of(ty) if init is not None or ty.k != 'struct' or ty.elems is not None else 8, 'global', nm, st.own)
        if init is None:
            o.kind = 'extern'
            if nm == '__libc_single_threaded': o.fill = 1     # reference counts of std::shared_ptr: trusted, executed without atomics
        else:
            s.init_cells(o, 0, ty, init)
        o.ro = isconst
        st.mem[i] = o
        return o

    def init_cells(s, o, off, ty, c):
        if isinstance(c, CZero) or (isinstance(c, int) and c == 0 and ty.k in ('struct', 'array')):
            if off == 0 and size_of(ty) == o.size:
                o.fill = 0
            else:
                s.zero_cells(o, off, ty)
            return
        if isinstance(c, bytes):
            for k, b in enumerate(c): o.cells[off + k] = (1, b)
            return
        if isinstance(c, CAgg):
            if ty.k == 'struct':
                for (et, ev), eo in zip(c.elems, offsets(ty)): s.init_cells(o, off + eo, et, ev)
            else:
                es = size_of(ty.elems)
                for k, (et, ev) in enumerate(c.elems): s.init_cells(o, off + k * es, et, ev)
            return
        if c is UNDEF: return
        v = s.cval(ty, c)
        o.cells[off] = (size_of(ty), v)

    def zero_cells(s, o, off, ty):
        if ty.k == 'struct':
            for et, eo in zip(ty.elems, offsets(ty)): s.zero_cells(o, off + eo, et)
        elif ty.k in ('array', 'vector'):
            es = size_of(ty.elems)
            for k in range(ty.n): s.zero_cells(o, off + k * es, ty.elems)
        else:
            o.cells[off] = (size_of(ty), NULLP if ty.k == 'ptr' else 0.0 if ty.k in ('float', 'double') else 0)

    def cval(s, ty, c):
        """constant -> runtime value"""
        if isinstance(c, (int, float)): return c
        if c is NULL: return NULLP
        if c is UNDEF: return UNDEF
        if isinstance(c, CGlobal):
            return Ptr(s.gid(s.m.alias_target(c.name)), 0)
        if isinstance(c, CZero):
            return s.zero_val(c.ty)
        if isinstance(c, CAgg):
            return tuple(s.cval(t, v) for t, v in c.elems)
        if isinstance(c, bytes): return tuple(c)
        if isinstance(c, CExpr):
            if c.op == 'gep':
                bt, ops = c.args
                p = s.cval(*ops[0])
                off = p.off
                t = bt
                for k, (it, iv) in enumerate(ops[1:]):
                    iv = s.cval(it, iv)
                    if k == 0: off += sgn(iv, it.w) * size_of(t)
                    elif t.k == 'struct':
                        off += offsets(t)[iv]; t = t.elems[iv]
                    else:
                        t = t.elems
                        off += sgn(iv, it.w) * size_of(t)
                return Ptr(p.o, off)
            if c.op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                v = s.cval(c.args[0], c.args[1])
                if c.op == 'inttoptr' and isinstance(v, int): return Ptr(0, v)
                return v
            if c.op in ('sub', 'add'):
                pred, ops = c.args
                a = s.cval(*ops[0]); b = s.cval(*ops[1])
                return s.binop(None, c.op, ops[0][0].w, a, b, 0)
            if c.op in ('trunc', 'zext', 'sext'):
                ot, v, nt = c.args
                return s.castop(None, c.op, ot, nt, s.cval(ot, v))
        raise Unsupported('constant %r' % (c,))

    def zero_val(s, ty):
        if ty.k == 'ptr': return NULLP
        if ty.k == 'struct': return tuple(s.zero_val(e) for e in ty.elems)
        if ty.k in ('array', 'vector'): return tuple(s.zero_val(ty.elems) for _ in range(ty.n))
        if ty.k in ('float', 'double'): return 0.0
        return 0

    def wobj(s, st, o):
        if o.own != st.own:
            o = o.copy(st.own)
            st.mem[o.id] = o
        return o

    def safety(s, st, name):
        s.oblig(st, 0, name, 'safety')

    def access(s, st, p, size, write):
        """check pointer p for size bytes; returns (Obj, concrete offset)"""
        if not isinstance(p, Ptr):
            if p is UNDEF: s.safety(st, 'memory-safety: uninitialised pointer dereferenced')
            p = Ptr(0, p)
        if p.o == 0:
            s.safety(st, 'memory-safety: null pointer dereference')
        o = s.obj(st, p.o)
        if o is None:
            if p.o in s.funcid: s.safety(st, 'memory-safety: data access to function')
            s.safety(st, 'memory-safety: access to released stack object')
        if not o.alive:
            s.safety(st, 'memory-safety: use after free')
        off = p.off
        if not isinstance(off, int):
            off = simp(off)
        if not isinstance(off, int):
            szx = ov(o.size)
            s.oblig(st, z3.And(off >= 0, off + size <= szx), 'memory-safety: out-of-bounds access', 'safety')
            off = s.concretize(st, off)
        if off < 0 or (isinstance(o.size, int) and off + size > o.size):
            if o.kind != 'extern' or off < 0:
                s.safety(st, 'memory-safety: out-of-bounds access')
        elif not isinstance(o.size, int):
            s.oblig(st, o.size >= off + size, 'memory-safety: out-of-bounds access', 'safety')
        if write:
            if o.ro: s.safety(st, 'memory-safety: write to constant')
            o = s.wobj(st, o)
        return o, off

    def read_cell(s, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        if c is None:
            # any overlap?
            hit = False
            for k in range(off - 15, off + size):
                q = o.cells.get(k)
                if q is not None and k + q[0] > off: hit = True; break
            if not hit:
                if o.fill is not None:
                    if isinstance(o.fill, int) and size <= 16: return int.from_bytes(bytes([o.fill]) * size, 'little')
                return UNDEF
        # assemble from bytes
        parts = []
        k = off
        while k < off + size:
            found = None
            for j in range(k, k - 16, -1):
                q = o.cells.get(j)
                if q is not None:
                    if j + q[0] > k: found = (j, q)
                    break
            if found is None:
                if o.fill is None: return UNDEF
                parts.append((o.fill, 1)); k += 1
                continue
            j, q = found
            sz, v = q
            lo = k - j
            n = min(sz - lo, off + size - k)
            if v is UNDEF: return UNDEF
            if isinstance(v, Ptr):
                if v.o == 0 and isinstance(v.off, int): v = v.off & ((1 << 64) - 1)
                else: raise Unsupported('partial read of pointer')
            if isinstance(v, float): raise Unsupported('partial read of float')
            if isinstance(v, int):
                parts.append(((v >> (8 * lo)) & ((1 << (8 * n)) - 1), n))
            else:
                if z3.is_bool(v): v = bv(v, 8 * sz)
                parts.append((s.int_part(v, sz, lo, n), n))
            k += n
        if all(isinstance(v, int) for v, _ in parts):
            r = 0; sh = 0
            for v, n in parts: r |= v << sh; sh += 8 * n
            return r
        tot = z3.IntVal(0); sh = 0
        for idx, (v, n) in enumerate(parts):
            last = idx == len(parts) - 1
            if isinstance(v, int): t = z3.IntVal(sgn(v, 8 * n) if last else v)
            else:
                t = z3.If(v >= 1 << (8 * n - 1), v - (1 << (8 * n)), v) if last else v
            tot = tot + t * (1 << sh)
            sh += 8 * n
        return mk(tot, 8 * size)

    @staticmethod
    def int_part(v, sz, lo, n):
        """unsigned value of bytes [lo,lo+n) of a sz-byte signed Int"""
        return (v / (1 << (8 * lo))) % (1 << (8 * n))

    def kill_range(s, o, off, size):
        """remove cells overlapping [off,off+size), keeping outside bytes"""
        cells = o.cells
        for k in range(off - 15, off + size) if size < 4096 else [x for x in list(cells) if off - 15 <= x < off + size]:
            q = cells.get(k)
            if q is None: continue
            sz, v = q
            if k + sz <= off: continue
            del cells[k]
            if k < off:
                s.put_part(o, k, sz, v, 0, off - k)
            if k + sz > off + size:
                s.put_part(o, k, sz, v, off + size - k, sz)

    def put_part(s, o, k, sz, v, lo, hi):
        n = hi - lo
        if v is UNDEF: return
        if isinstance(v, Ptr):
            if v.o == 0 and isinstance(v.off, int): v = v.off & ((1 << 64) - 1)
            else: return   # partially overwritten pointer: remaining bytes undefined
        if isinstance(v, float): return
        if isinstance(v, int): o.cells[k + lo] = (n, (v >> (8 * lo)) & ((1 << (8 * n)) - 1))
        else:
            if z3.is_bool(v): v = bv(v, 8 * sz)
            u = s.int_part(v, sz, lo, n)
            o.cells[k + lo] = (n, mk(z3.If(u >= 1 << (8 * n - 1), u - (1 << (8 * n)), u), 8 * n))

    def write_cell(s, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        s.kill_range(o, off, size)
        if o.fill is not None and v is UNDEF: pass
        o.cells[off] = (size, v)

    def load(s, st, ty, p):
        k = ty.k
        if k == 'struct':
            return tuple(s.load(st, e, s.padd(p, of)) for e, of in zip(ty.elems, offsets(ty)))
        if k in ('array', 'vector'):
            es = size_of(ty.elems)
            return tuple(s.load(st, ty.elems, s.padd(p, i * es)) for i in range(ty.n))
        size = size_of(ty)
        o, off = s.access(st, p, size, False)
        v = s.read_cell(o, off, size)
        return s.conv_loaded(st, ty, v)

    def conv_loaded(s, st, ty, v):
        k = ty.k
        if v is UNDEF: return v
        if k == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, int): return NULLP if v == 0 else Ptr(0, v)
            if isinstance(v, float): raise Unsupported('float as ptr')
            return Ptr(0, v)
        if k == 'int':
            if isinstance(v, Ptr):
                if v.o == 0: v = v.off
                elif ty.w != 64: raise Unsupported('narrow pointer load')
                return v
            if isinstance(v, float):
                import struct
                return int.from_bytes(struct.pack('<d' if ty.w == 64 else '<f', v), 'little')
            if isinstance(v, int): return v & ((1 << ty.w) - 1)
            if z3.is_bool(v): return v if ty.w == 1 else bv(v, ty.w)
            if ty.w == 1: return s.castop(st, 'trunc', INT(8), ty, v)
            if ty.w & 7: return s.wrap(st, v, ty.w)
            return v
        if k in ('double', 'float'):
            if isinstance(v, float): return v
            if isinstance(v, int):
                import struct
                return struct.unpack('<d' if k == 'double' else '<f', v.to_bytes(8 if k == 'double' else 4, 'little'))[0]
            raise Unsupported('symbolic float')
        raise Unsupported('load %r' % ty)

    def store(s, st, ty, v, p):
        k = ty.k
        if k == 'struct':
            if v is UNDEF: v = [UNDEF] * len(ty.elems)
            for e, of, x in zip(ty.elems, offsets(ty), v): s.store(st, e, x, s.padd(p, of))
            return
        if k in ('array', 'vector'):
            es = size_of(ty.elems)
            if v is UNDEF: v = [UNDEF] * ty.n
            for i, x in enumerate(v): s.store(st, ty.elems, x, s.padd(p, i * es))
            return
        size = size_of(ty)
        o, off = s.access(st, p, size, True)
        if k == 'int' and not isinstance(v, (int, Ptr, UndefT)) and z3.is_bool(v):
            v = bv(v, 8 * size)
        elif k == 'int' and is_sym(v) and ty.w != 8 * size:
            v = s.castop(st, 'zext', ty, INT(8 * size), v)
        s.write_cell(o, off, size, v)

    def padd(s, p, d):
        if isinstance(d, int):
            if d == 0: return p
            if isinstance(p.off, int): return Ptr(p.o, p.off + d)
            return Ptr(p.o, simp(p.off + d))
        return Ptr(p.o, simp(d + p.off))

    # ------------------------------------------------------------ execution
    def call_fn(s, st, name, args, ret=None, onret=None, callins=None):
        f = s.m.funcs.get(name)
        if f is None: raise Unsupported('call to undefined function ' + name)
        if not f.parsed: s.m.parse_function(f)
        t = s.templ.get(name)
        if t is None:
            t = [None] * f.nregs
            for r, ty, c in f.consts: t[r] = s.cval(ty, c)
            s.templ[name] = t
        s.called[name] = s.called.get(name, 0) + 1
        fr = Frame()
        fr.fn = f
        fr.regs = t[:]
        for (ty, r), a in zip(f.params, args): fr.regs[r] = a
        fr.blk = f.blocks[0]; fr.ins = fr.blk.ins; fr.pc = 0
        fr.ret = ret; fr.allocas = []; fr.loops = []; fr.onret = onret; fr.call = callins
        st.frames.append(fr)
        if len(st.frames) > 400: raise Unsupported('call depth exceeded in ' + name)
        return fr

    def explore(s, states):
        saved = s.work
        s.work = list(states)
        try:
            while s.work:
                st = s.work.pop()
                try:
                    s.run(st)
                except PathEnd:
                    s.stats['paths'] += 1
                except NeedInv as e:
                    # restart loop in invariant mode from its snapshot
                    try:
                        s.start_inv(e.ctx.snap.fork(s), e.depth, e.ctx.loop)
                    except PathEnd:
                        s.stats['paths'] += 1
        finally:
            s.work = saved

    def run(s, st):
        EX = s.EX
        frames = st.frames
        # states of a loop that meanwhile was converted to invariant mode are re-explored there
        for fr in frames:
            for c in fr.loops:
                if c.mode == 'unroll' and c.shared.get('converted'): raise PathEnd()
        steps = 0
        try:
            while True:
                fr = frames[-1]
                ins = fr.ins[fr.pc]
                fr.pc += 1
                steps += 1
                EX[ins.op](st, fr, ins)
                if steps & 4095 == 0:
                    if s.deadline and time.time() > s.deadline: raise Budget('time budget exceeded')
                    if s.stats['steps'] + steps > s.maxsteps: raise Budget('step budget exceeded')
        finally:
            s.stats['steps'] += steps

    # ---- control
    def goto(s, st, fr, tgt):
        prev = fr.blk.idx
        if tgt.phis:
            regs = fr.regs
            vals = [regs[ph.x[prev]] for ph in tgt.phis]
            for ph, v in zip(tgt.phis, vals): regs[ph.d] = v
        fr.blk = tgt; fr.ins = tgt.ins; fr.pc = 0
        fl = fr.fn.loops
        if fl:
            ti = tgt.idx
            while fr.loops and ti not in fr.loops[-1].loop.blocks:
                c = fr.loops.pop()
                if c.mode == 'discover':
                    c.data['exits'].append(st)
                    raise PathEnd()
            L = fl.get(ti)
            if L is not None:
                if fr.loops and fr.loops[-1].loop is L:
                    s.backedge(st, fr, fr.loops[-1])
                else:
                    s.enter_loop(st, fr, L)

    def enter_loop(s, st, fr, L):
        c = LoopCtx()
        c.loop = L; c.mode = 'unroll'; c.count = 0; c.shared = {}; c.touch0 = st.touch; c.data = None; c.phase = 0
        c.snap = st.fork(s)
        fr.loops.append(c)
        # remember: snapshot has no ctx for this loop; it is positioned at the header with phis set

    def backedge(s, st, fr, c):
        c.count += 1
        if c.mode == 'unroll':
            if c.count > s.opts.get('max_unroll', 300): raise Budget('loop unrolled more than max_unroll times')
            if c.count > 20 and c.symexit and len(st.cons) > len(c.snap.cons):
                # every exit so far was decided by a branch elsewhere (in a callee): the trip count is symbolic
                c.shared['converted'] = True
                e = NeedInv(); e.ctx = c; e.depth = len(st.frames) - 1
                raise e
            return
        if c.mode == 'forced':
            if c.count > s.opts.get('forced_unroll', 12):
                raise Unsupported('loop without invariant exceeds unroll bound in ' + fr.fn.name)
            return
        if c.mode == 'discover':
            c.data['back'].append(st)
            raise PathEnd()
        if c.mode == 'peel':
            depth = len(st.frames) - 1
            fr.loops.pop()
            s.start_inv(st, depth, c.loop, c.phase, True)
            raise PathEnd()
        if c.mode == 'final':
            if st.touch != c.touch0:
                if c.phase > 8: raise Unsupported('too many loop phases')
                depth = len(st.frames) - 1
                L = c.loop
                ph = c.phase
                fr.loops.pop()
                s.start_inv(st, depth, L, ph + 1)
                raise PathEnd()
            s.check_inv(st, c)
            raise PathEnd()

    def x_br(s, st, fr, ins):
        if ins.a is None:
            s.goto(st, fr, ins.x)
            return
        c = fr.regs[ins.a]
        if isinstance(c, int):
            s.goto(st, fr, ins.x if c else ins.y)
            return
        if c is UNDEF:
            s.safety(st, 'uninitialised value decides a branch')
        t, f = s.both(st, c)
        c = simp(c) if not isinstance(c, int) else c
        if t and f:
            # symbolic loop exit?
            if fr.loops:
                bi = fr.blk.idx
                for cx in reversed(fr.loops):
                    if cx.mode == 'unroll' and cx.loop.blocks.__contains__(bi):
                        tx = ins.x.idx in cx.loop.blocks; ty = ins.y.idx in cx.loop.blocks
                        if tx != ty and not s.ends_now(fr.fn, ins.x if not tx else ins.y):
                            cx.shared['converted'] = True
                            e = NeedInv(); e.ctx = cx; e.depth = len(st.frames) - 1
                            raise e
            s.stats['forks'] += 1
            o = st.fork(s)
            ofr = o.frames[-1]
            nc = z3.Not(c)
            s.add(o, nc); o.known[c.get_id()] = (c, False)
            s.add(st, c)
            s.note(st, fr, ins, 1); s.note(o, ofr, ins, 0)
            # run the other one later, from its jump
            try:
                s.goto(o, ofr, ins.y)
                s.work.append(o)
            except PathEnd:
                s.stats['paths'] += 1
            s.goto(st, fr, ins.x)
        elif t or f:
            if fr.loops:
                cx = fr.loops[-1]
                if cx.mode == 'unroll' and not cx.symexit and (ins.x.idx in cx.loop.blocks) != (ins.y.idx in cx.loop.blocks): cx.symexit = True
            s.goto(st, fr, ins.x if t else ins.y)
        else: raise PathEnd()

    def ends_now(s, fn, blk):
        """block that only leads to unreachable"""
        for _ in range(4):
            t = blk.ins[-1]
            if t.op == 'unreachable': return True
            if t.op == 'br' and t.y is None: blk = t.x
            else: return False
        return False

    def note(s, st, fr, ins, v):
        if ins.line is not None:
            f, l = s.m.srcline(ins.line)
            if f and '/verif/' not in f and 'asynchronous' in f:
                st.path.append('%s:%s=%d' % (f.split('/')[-1], l, v))
                if len(st.path) > 60: del st.path[:20]

    def x_switch(s, st, fr, ins):
        v = fr.regs[ins.a]
        if v is UNDEF: s.safety(st, 'uninitialised value decides a switch')
        if isinstance(v, int):
            for k, b in ins.y:
                if k == v:
                    s.goto(st, fr, b); return
            s.goto(st, fr, ins.x); return
        for k, b in ins.y:
            if s.decide(st, bv(v, ins.ty.w) == k):
                s.goto(st, fr, b); return
        s.goto(st, fr, ins.x)

    def x_ret(s, st, fr, ins):
        v = fr.regs[ins.a] if ins.a is not None else None
        if fr.loops:
            for c in fr.loops:
                if c.mode == 'discover':
                    c.data['exits'].append(st)
                    raise PathEnd()
        for i in fr.allocas: st.mem.pop(i, None)
        st.frames.pop()
        if fr.onret is not None:
            r = fr.onret(st, v)
            if r is not None: v = r[0]
        if not st.frames:
            raise PathEnd()
        c = fr.call
        if c is not None:
            cf = st.frames[-1]
            if c.d is not None: cf.regs[c.d] = v
            if c.op == 'invoke': s.goto(st, cf, c.x)

    def finish_call(s, st, fr, ins, v):
        """intrinsic returned v"""
        if ins.d is not None: fr.regs[ins.d] = v
        if ins.op == 'invoke': s.goto(st, fr, ins.x)

    def x_call(s, st, fr, ins):
        name = ins.c
        regs = fr.regs
        if name is None:
            p = regs[ins.a]
            if p is UNDEF: s.safety(st, 'memory-safety: call through uninitialised pointer')
            if not isinstance(p, Ptr) or p.o == 0:
                s.safety(st, 'memory-safety: call through null pointer')
            name = s.funcid.get(p.o)
            if name is None: s.safety(st, 'memory-safety: call through non-function pointer')
            if p.off != 0: s.safety(st, 'memory-safety: call through bad pointer')
        h = s.INTR.get(name)
        if h is None:
            f = s.m.funcs.get(name)
            if f is None:
                for pre, hh in s.intr_prefix:
                    if name.startswith(pre):
                        h = hh; break
                if h is None:
                    raise Unsupported('external function ' + name + ' at ' + ' <- '.join(s.where(st)[:3]))
        if h is not None:
            args = [regs[a] for a, _, _ in ins.b]
            s.curname = name
            h(st, fr, ins, args)
            return
        args = []
        for a, t, bvty in ins.b:
            v = regs[a]
            if bvty is not None:
                cp = s.alloc(st, size_of(bvty), 'stack', 'byval')
                s.memcpy(st, cp, v, size_of(bvty))
                v = cp
            args.append(v)
        s.call_fn(st, name, args, None, None, ins)

    def memcpy(s, st, d, src, n):
        if n == 0: return
        so, soff = s.access(st, src, n, False)
        items = []
        cells = so.cells
        # collect
        k = soff
        end = soff + n
        keys = range(soff - 15, end) if n < 2048 else sorted(x for x in cells if soff - 15 <= x < end)
        for k in keys:
            q = cells.get(k)
            if q is None: continue
            sz, v = q
            if k + sz <= soff: continue
            if k >= soff and k + sz <= end:
                items.append((k - soff, sz, v))
            else:
                lo = max(k, soff); hi = min(k + sz, end)
                tmp = Obj(0, 0, '', None, 0)
                s.put_part(tmp, k, sz, v, lo - k, hi - k)
                for kk, (z, vv) in tmp.cells.items(): items.append((kk - soff, z, vv))
        fill = so.fill
        do, doff = s.access(st, d, n, True)
        s.kill_range(do, doff, n)
        if fill is not None and do.fill != fill:
            covered = set()
            for ko, sz, v in items: covered.update(range(ko, ko + sz))
            for b in range(n):
                if b not in covered: do.cells[doff + b] = (1, fill)
        elif fill is None and do.fill is not None:
            covered = set()
            for ko, sz, v in items: covered.update(range(ko, ko + sz))
            for b in range(n):
                if b not in covered: do.cells[doff + b] = (1, UNDEF)
        for ko, sz, v in items: do.cells[doff + ko] = (sz, v)

    def memset(s, st, d, val, n):
        if n == 0: return
        o, off = s.access(st, d, n, True)
        if off == 0 and n == o.size and isinstance(val, int):
            o.cells = {}; o.fill = val & 255
            return
        s.kill_range(o, off, n)
        if isinstance(val, int):
            k = 0
            v8 = int.from_bytes(bytes([val & 255]) * 8, 'little')
            while k + 8 <= n: o.cells[off + k] = (8, v8); k += 8
            while k < n: o.cells[off + k] = (1, val & 255); k += 1
        else:
            for k in range(n): o.cells[off + k] = (1, val)

    # ---- exceptions
    def throw(s, st, ptr, ti):
        """unwind"""
        fr = st.frames[-1]
        first = True
        while st.frames:
            fr = st.frames[-1]
            c = None
            if first:
                c = fr.ins[fr.pc - 1] if fr.pc > 0 else None
                # intrinsic that throws: current ins is the call itself
            first = False
            if c is not None and c.op == 'invoke':
                lp = None
                for i2 in c.y.ins:
                    if i2.op == 'landingpad': lp = i2; break
                sel = s.landing_sel(lp, ti, st)
                if sel is not None:
                    st.infl = (ptr, ti, sel)
                    s.goto(st, fr, c.y)
                    return
            if fr.loops:
                for cx in fr.loops:
                    if cx.mode == 'discover':
                        cx.data['exits'].append(st)
                        raise PathEnd()
            for i in fr.allocas: st.mem.pop(i, None)
            st.frames.pop()
            if st.frames:
                # continue unwinding at the call site of this frame
                first = False
                cs = fr.call
                nf = st.frames[-1]
                if cs is not None and cs.op == 'invoke':
                    lp = [i2 for i2 in cs.y.ins if i2.op == 'landingpad'][0]
                    sel = s.landing_sel(lp, ti, st)
                    if sel is not None:
                        st.infl = (ptr, ti, sel)
                        s.goto(st, nf, cs.y)
                        return
        s.fail_escape(st, ti)

    def fail_escape(s, st, ti):
        s.oblig(st, 0, 'exception-safety: exception escapes the function under contract (%s)' % ti, 'safety')

    def tid(s, nm):
        t = s.tids.get(nm)
        if t is None: t = s.tids[nm] = len(s.tids) + 1
        return t

    def ti_match(s, thrown, catch):
        t = thrown
        for _ in range(20):
            if t == catch: return True
            b = s.ti_bases(t)
            if not b: return False
            if len(b) > 1:
                return any(s.ti_match(x, catch) for x in b)
            t = b[0]
        return False

    def ti_bases(s, t):
        if t in STD_TI_BASE: return [STD_TI_BASE[t]]
        if t not in s.m.globals: return []
        ty, init, _ = s.m.parse_global(t)
        if init is None or not isinstance(init, CAgg): return []
        vt = init.elems[0][1]
        vn = ''
        if isinstance(vt, CExpr):
            vn = str(vt.args[1][0][1])
        if '__si_class_type_info' in vn:
            return [init.elems[2][1].name]
        if '__vmi_class_type_info' in vn:
            return [e.name for _, e in init.elems[4:] if isinstance(e, CGlobal)]
        return []

    def landing_sel(s, lp, ti, st):
        cleanup = False
        for k, c in lp.x:
            if k == 'cleanup': cleanup = True
            elif k == 'catch':
                if c is NULL: return s.tid(None)
                if s.ti_match(ti, c.name): return s.tid(c.name)
            elif k == 'filter':
                if isinstance(c, CAgg):
                    if not any(s.ti_match(ti, e.name) for _, e in c.elems): return -1
                else: return -1
        return 0 if cleanup else None

    def x_landingpad(s, st, fr, ins):
        ptr, ti, sel = st.infl
        fr.regs[ins.d] = (ptr, sel & 0xffffffff)

    def x_resume(s, st, fr, ins):
        ptr, sel = fr.regs[ins.a]
        ti = st.ghost.get(('exti', ptr.o))
        # resume: pop this frame and continue unwinding
        if fr.loops:
            for cx in fr.loops:
                if cx.mode == 'discover':
                    cx.data['exits'].append(st)
                    raise PathEnd()
        for i in fr.allocas: st.mem.pop(i, None)
        st.frames.pop()
        if not st.frames: s.fail_escape(st, ti)
        s.unwind_from(st, fr.call, ptr, ti)

    def unwind_from(s, st, cs, ptr, ti):
        while True:
            nf = st.frames[-1]
            if cs is not None and cs.op == 'invoke':
                lp = [i2 for i2 in cs.y.ins if i2.op == 'landingpad'][0]
                sel = s.landing_sel(lp, ti, st)
                if sel is not None:
                    st.infl = (ptr, ti, sel)
                    s.goto(st, nf, cs.y)
                    return
            if nf.loops:
                for cx in nf.loops:
                    if cx.mode == 'discover':
                        cx.data['exits'].append(st)
                        raise PathEnd()
            for i in nf.allocas: st.mem.pop(i, None)
            st.frames.pop()
            cs = nf.call
            if not st.frames: s.fail_escape(st, ti)

    def x_unreachable(s, st, fr, ins):
        s.safety(st, 'undefined behaviour: unreachable code reached')
        raise PathEnd()

    def x_nop(s, st, fr, ins): pass

    def x_unsup(s, st, fr, ins): raise Unsupported('instruction ' + str(ins.x or ins.op))

    def x_asm(s, st, fr, ins):
        if 'pause' in ins.x or '""' in ins.x or 'nop' in ins.x: return
        raise Unsupported('asm ' + ins.x)

    # ---- data
    def env(s, st, fr):
        """interference: before an access to a shared variable (atomic operation, lock acquisition) the
        contract's environment function vf_env runs. True: run it first, the access follows."""
        g = st.ghost
        if not g.get('env'): return False
        if g.get('inenv'): return False
        if g.pop('envdone', None): return False
        g['inenv'] = 1
        fr.pc -= 1

        def back(st2, v):
            st2.ghost['inenv'] = 0
            st2.ghost['envdone'] = 1
        s.call_fn(st, 'vf_env', [], None, back)
        return True

    def monitored(s, st, p, size):
        """plain access to a region declared as monitor: some mutex of the region must be held"""
        m = st.ghost.get(('mon', p.o))
        if m is None: return
        if st.ghost.get('monoff'): return
        for mm in m:
            lo, hi, nm = mm[:3]
            if isinstance(p.off, int) and (p.off + size <= lo or p.off >= hi): continue
            if len(mm) > 3:
                if not st.ghost.get(('mutex', mm[3][0], mm[3][1])): s.safety(st, 'lock-discipline: %s accessed without its lock' % nm)
                continue
            held = any(k[0] == 'mutex' and k[1] == p.o and lo <= k[2] < hi and v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'mutex')
            if not held: s.safety(st, 'lock-discipline: %s accessed without its lock' % nm)

    def x_load(s, st, fr, ins):
        p = fr.regs[ins.a]
        ty = ins.ty
        if ins.x:
            if s.env(st, fr): return
        elif s.monitors and isinstance(p, Ptr) and ('mon', p.o) in st.ghost: s.monitored(st, p, size_of(ty))
        # fast path
        if isinstance(p, Ptr) and isinstance(p.off, int):
            o = st.mem.get(p.o)
            if o is not None and o.alive and ty.k in ('int', 'ptr'):
                c = o.cells.get(p.off)
                sz = size_of(ty)
                if c is not None and c[0] == sz and isinstance(o.size, int):
                    v = c[1]
                    if ty.k == 'ptr':
                        if isinstance(v, Ptr): fr.regs[ins.d] = v; return
                    elif isinstance(v, int): fr.regs[ins.d] = v & ((1 << ty.w) - 1); return
                    fr.regs[ins.d] = s.conv_loaded(st, ty, v); return
        fr.regs[ins.d] = s.load(st, ty, p)

    def x_store(s, st, fr, ins):
        if ins.x:
            if s.env(st, fr): return
        elif s.monitors:
            p = fr.regs[ins.b]
            if isinstance(p, Ptr) and ('mon', p.o) in st.ghost: s.monitored(st, p, size_of(ins.ty))
        s.store(st, ins.ty, fr.regs[ins.a], fr.regs[ins.b])

    def x_gep(s, st, fr, ins):
        p = fr.regs[ins.a]
        regs = fr.regs
        if not isinstance(p, Ptr):
            if p is UNDEF:
                regs[ins.d] = UNDEF; return
            p = Ptr(0, p)
        off = p.off
        if ins.x: off = off + ins.x
        for sl, w, sc in ins.y:
            v = regs[sl]
            if v is UNDEF: regs[ins.d] = UNDEF; return
            if isinstance(v, int):
                off = off + sgn(v, w) * sc
            elif isinstance(v, Ptr):
                raise Unsupported('pointer as gep index')
            else:
                t = v * sc if sc != 1 else v
                off = t + off if not isinstance(off, int) or off != 0 else t
        if not isinstance(off, int): off = simp(off)
        regs[ins.d] = Ptr(p.o, off)

    def x_alloca(s, st, fr, ins):
        n = 1
        if ins.a is not None:
            n = s.concretize(st, fr.regs[ins.a])
        p = s.alloc(st, size_of(ins.ty) * n, 'stack')
        fr.allocas.append(p.o)
        fr.regs[ins.d] = p

    def addr(s, p):
        """numeric address of a pointer for ordering"""
        if p.o == 0: return p.off
        return p.off + (p.o << 32)

    def x_icmp(s, st, fr, ins):
        a = fr.regs[ins.a]; b = fr.regs[ins.b]
        fr.regs[ins.d] = s.icmp(st, ins.x, ins.ty, a, b)

    def icmp(s, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = Ptr(0, a)
            if not isinstance(b, Ptr): b = Ptr(0, b)
            if a.o == b.o:
                x, y = a.off, b.off
                if isinstance(x, int) and isinstance(y, int):
                    d = x - y
                    return {'eq': int(d == 0), 'ne': int(d != 0), 'ult': int(d < 0), 'ule': int(d <= 0), 'ugt': int(d > 0),
                            'uge': int(d >= 0), 'slt': int(d < 0), 'sle': int(d <= 0), 'sgt': int(d > 0), 'sge': int(d >= 0)}[pred]
                x = ov(x); y = ov(y)
                sp = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
                return s.icmp_bv(st, sp, x, y, 64)
            if pred == 'eq': return 0
            if pred == 'ne': return 1
            x, y = s.addr(a), s.addr(b)
            if isinstance(x, int) and isinstance(y, int):
                return {'ult': int(x < y), 'ule': int(x <= y), 'ugt': int(x > y), 'uge': int(x >= y),
                        'slt': int(x < y), 'sle': int(x <= y), 'sgt': int(x > y), 'sge': int(x >= y)}[pred]
            raise Unsupported('ordering of unrelated pointers')
        w = ty.w
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's': a = sgn(a, w); b = sgn(b, w)
            p = pred[1:]
            if p == 'lt': return int(a < b)
            if p == 'le': return int(a <= b)
            if p == 'gt': return int(a > b)
            return int(a >= b)
        if w == 1:
            x, y = bo(a), bo(b)
            if pred == 'eq': return simp(x == y)
            if pred == 'ne': return simp(x != y)
            x = bv(x, 8); y = bv(y, 8)
            if pred[0] == 's': x, y = -x, -y
            return s.icmp_bv(st, 's' + pred[1:], x, y, 8)
        if isinstance(b, int):
            t = ite_consts(a)
            if t is not None:
                MM = (1 << w) - 1
                c1 = s.icmp(st, pred, ty, t[1] & MM, b); c2 = s.icmp(st, pred, ty, t[2] & MM, b)
                if c1 == c2: return c1
                return t[0] if c1 else simp(z3.Not(t[0]))
        return s.icmp_bv(st, pred, bv(a, w), bv(b, w), w)

    def icmp_bv(s, st, pred, x, y, w):
        if pred == 'eq': return simp(x == y)
        if pred == 'ne': return simp(x != y)
        if pred == 'slt': return simp(x < y)
        if pred == 'sle': return simp(x <= y)
        if pred == 'sgt': return simp(x > y)
        if pred == 'sge': return simp(x >= y)
        return s.ucmp(st, pred, x, y)

    def x_fcmp(s, st, fr, ins):
        a = fr.regs[ins.a]; b = fr.regs[ins.b]
        if not (isinstance(a, float) and isinstance(b, float)): raise Unsupported('symbolic fcmp')
        p = ins.x[1:]
        if a != a or b != b:        # nan stands for an arbitrary floating point value: nothing is known about it
            fr.regs[ins.d] = s.fresh(1, 'fcmp')
            return
        fr.regs[ins.d] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b,
                              'rd': True}.get(p, False))

    def x_select(s, st, fr, ins):
        c = fr.regs[ins.a]; a = fr.regs[ins.b]; b = fr.regs[ins.c]
        if isinstance(c, int):
            fr.regs[ins.d] = a if c else b
            return
        if c is UNDEF:
            fr.regs[ins.d] = UNDEF if a is not b else a
            return
        if ins.ty.k == 'int' and not isinstance(a, (Ptr, UndefT)) and not isinstance(b, (Ptr, UndefT)):
            w = ins.ty.w
            if w > 1 and isinstance(a, int) and isinstance(b, int) and a > 1 and a != b:
                t, f = s.both(st, c)
                if not (t and f):
                    fr.regs[ins.d] = a if t else b
                    return
            if w == 1:
                fr.regs[ins.d] = simp(z3.If(c, bo(a), bo(b)))
            else:
                fr.regs[ins.d] = mk(z3.If(c, bv(a, w), bv(b, w)), w)
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and isinstance(a.off, int) and a.off == b.off:
            fr.regs[ins.d] = a
            return
        if s.decide(st, c): fr.regs[ins.d] = a
        else: fr.regs[ins.d] = b

    def x_freeze(s, st, fr, ins):
        v = fr.regs[ins.a]
        if v is UNDEF:
            if ins.ty.k == 'int': v = s.fresh_in(st, ins.ty.w, 'frz')
        fr.regs[ins.d] = v

    def x_extractvalue(s, st, fr, ins):
        v = fr.regs[ins.a]
        for i in ins.x:
            if v is UNDEF: break
            v = v[i]
        fr.regs[ins.d] = v

    def x_insertvalue(s, st, fr, ins):
        def put(v, idx, x, ty):
            if v is UNDEF:
                n = len(ty.elems) if ty.k == 'struct' else ty.n
                v = (UNDEF,) * n
            l = list(v)
            if len(idx) == 1: l[idx[0]] = x
            else: l[idx[0]] = put(l[idx[0]], idx[1:], x, ty.elems[idx[0]] if ty.k == 'struct' else ty.elems)
            return tuple(l)
        fr.regs[ins.d] = put(fr.regs[ins.a], ins.x, fr.regs[ins.b], ins.ty)

    def x_bin(s, st, fr, ins):
        a = fr.regs[ins.a]; b = fr.regs[ins.b]
        fr.regs[ins.d] = s.binop(st, ins.op, ins.ty.w, a, b, ins.x)

    def binop(s, st, op, w, a, b, fl):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        M = (1 << w) - 1
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub':
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.o == b.o:
                        d = a.off - b.off
                        if isinstance(d, int): return d & M
                        return mk(d, w)
                    x, y = s.addr(a), s.addr(b)
                    if isinstance(x, int) and isinstance(y, int): return (x - y) & M
                    raise Unsupported('difference of unrelated pointers')
                if isinstance(a, Ptr):
                    return s.padd(a, -sgn(b, w) if isinstance(b, int) else -b)
            if op == 'add':
                if not isinstance(a, Ptr): a, b = b, a
                if not isinstance(b, Ptr): return s.padd(a, sgn(b, w) if isinstance(b, int) else b)
            if op in ('and', 'or', 'xor', 'urem', 'lshr', 'shl', 'mul', 'udiv') and isinstance(a, Ptr):
                if isinstance(a.off, int) and isinstance(b, int):
                    if a.o == 0: return s.binop(st, op, w, a.off & M, b, fl)
                    # objects are aligned to 2^32 in the abstract address space
                    v = (a.o << 32) + a.off
                    if op == 'and' and b > 0xffff: return Ptr(a.o, a.off & b & 0xffffffff)
                    r = s.binop(st, op, w, v & M, b, 0)
                    if op == 'or' and b < 4096: return Ptr(a.o, a.off | b)
                    return r
            if op == 'xor' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and isinstance(a.off, int) and a.off == b.off:
                return 0
            raise Unsupported('pointer arithmetic %s' % op)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float):
                if op == 'fadd': return a + b
                if op == 'fsub': return a - b
                if op == 'fmul': return a * b
                if op == 'fdiv': return a / b if b else float('inf')
            raise Unsupported('float op')
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': return a & b
            elif op == 'or': return a | b
            elif op == 'xor': return a ^ b
            elif op == 'shl': r = a << b if b < w else 0
            elif op == 'lshr': return a >> b if b < w else 0
            elif op == 'ashr': r = sgn(a, w) >> min(b, w - 1)
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: s.safety(st, 'undefined behaviour: division by zero')
                if op == 'udiv': r = a // b
                elif op == 'urem': r = a % b
                else:
                    x, y = sgn(a, w), sgn(b, w)
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0): q = -q
                    r = q if op == 'sdiv' else x - q * y
            else: raise Unsupported(op)
            if fl and st is not None and s.opts.get('overflow', True):
                if fl & 1 and op in ('add', 'sub', 'mul'):
                    x, y = sgn(a, w), sgn(b, w)
                    z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                    if not -(1 << (w - 1)) <= z < (1 << (w - 1)):
                        s.safety(st, 'undefined behaviour: signed overflow')
            return r & M
        if w == 1:
            x, y = bo(a), bo(b)
            if op == 'and': return simp(z3.And(x, y))
            if op == 'or': return simp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        x, y = bv(a, w), bv(b, w)
        if op in ('add', 'sub', 'mul'):
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            else:
                if not (isinstance(a, int) or isinstance(b, int)): raise Unsupported('nonlinear multiplication')
                r = x * y
            r = z3.simplify(r)
            if fl & 1 and st is not None and s.opts.get('overflow', True):
                s.oblig(st, s.rng(r, w), 'undefined behaviour: signed overflow', 'safety')
                return mk(r, w)
            return s.wrap(st, r, w)
        if op == 'and':
            if isinstance(a, int): a, b, x, y = b, a, y, x
            if isinstance(b, int):
                t = ite_consts(x)
                if t: return mk(z3.If(t[0], bv(t[1] & b, w), bv(t[2] & b, w)), w)
                if b == M: return x
                if b & (b + 1) == 0: return s.wrap(st, x % (b + 1), w)
                if (M ^ b) & ((M ^ b) + 1) == 0:     # clear low bits
                    k = (M ^ b) + 1
                    return s.wrap(st, x - x % k, w)
            t1, t2 = ite_consts(x), ite_consts(y)
            if t1 and t2 and {t1[1], t1[2]} <= {0, 1} and {t2[1], t2[2]} <= {0, 1}:
                p1 = t1[0] if t1[1] else z3.Not(t1[0]); p2 = t2[0] if t2[1] else z3.Not(t2[0])
                if t1[1] != t1[2] and t2[1] != t2[2]: return mk(z3.If(z3.And(p1, p2), z3.IntVal(1), z3.IntVal(0)), w)
            raise Unsupported('symbolic bitwise and')
        if op in ('or', 'xor'):
            if isinstance(b, int) and b == 0: return x
            if isinstance(a, int) and a == 0: return y
            if op == 'xor' and isinstance(b, int) and b == M: return mk(-x - 1, w)
            t1, t2 = ite_consts(x), ite_consts(y)
            if isinstance(b, int) and t1: 
                f = (lambda u: u | b) if op == 'or' else (lambda u: u ^ b)
                return mk(z3.If(t1[0], bv(f(t1[1] & M), w), bv(f(t1[2] & M), w)), w)
            if t1 and t2:
                f = (lambda u, v: u | v) if op == 'or' else (lambda u, v: u ^ v)
                return mk(z3.If(t1[0], z3.If(t2[0], bv(f(t1[1] & M, t2[1] & M), w), bv(f(t1[1] & M, t2[2] & M), w)),
                                z3.If(t2[0], bv(f(t1[2] & M, t2[1] & M), w), bv(f(t1[2] & M, t2[2] & M), w))), w)
            raise Unsupported('symbolic bitwise ' + op)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int): raise Unsupported('symbolic shift amount')
            if op == 'shl': return s.wrap(st, x * (1 << b), w)
            if op == 'ashr' or s.nonneg(st, x): return mk(x / (1 << b), w)
            return s.wrap(st, z3.If(x >= 0, x, x + (1 << w)) / (1 << b), w)
        s.oblig(st, y != 0, 'undefined behaviour: division by zero', 'safety')
        if not isinstance(b, int):
            t = ite_consts(y)
            if t and t[1] and t[2]:
                u1, u2 = bv(s.divop(st, op, x, t[1], w), w), bv(s.divop(st, op, x, t[2], w), w)
                return mk(z3.If(t[0], u1, u2), w)
            if op in ('udiv', 'urem'):
                ux = x if s.nonneg(st, x) else z3.If(x >= 0, x, x + (1 << w))
                uy = y if s.nonneg(st, y) else z3.If(y >= 0, y, y + (1 << w))
                q, r = s.fresh(64, 'quot'), s.fresh(64, 'rem')
                s.add(st, z3.And(ux == q * uy + r, r >= 0, r < uy, q >= 0, q <= ux, z3.Implies(ux < uy, z3.And(q == 0, r == ux))))
                return s.wrap(st, q if op == 'udiv' else r, w)
            raise Unsupported('symbolic divisor')
        return s.divop(st, op, x, b & M, w)

    def quot(s, st, x, b):
        """x / b for 0 <= x and a constant b > 0, named by a fresh variable and related to earlier quotients"""
        x = z3.simplify(x)
        e = z3.simplify(x / b)
        if z3.is_int_value(e) or b == 1 or not has_div(e) or loop_var(x): return e
        k = (x.get_id(), b)
        h = s.quots.get(k)
        if h is None:
            h = s.quots[k] = (x, s.fresh(64, 'quot'))
        q = h[1]
        d = z3.And(b * q <= x, x < b * q + b)
        if d.get_id() not in st.known:
            st.known[d.get_id()] = (d, True)
            st.cons.append(d); st.model = None
            m = 0
            for (_, b2), (x2, q2) in reversed(list(s.quots.items())):
                d2 = z3.And(b * q2 <= x2, x2 < b * q2 + b)
                if b2 != b or q2 is q or d2.get_id() not in st.known: continue
                if s.valid_q(st, x2 <= x): st.cons.append(q2 <= q)
                elif s.valid_q(st, x2 >= x): st.cons.append(q2 >= q)
                m += 1
                if m >= 2: break
        return q

    def divop(s, st, op, x, b, w):
        if op in ('udiv', 'urem'):
            if s.nonneg(st, x): q = s.quot(st, x, b)
            else:
                ux = z3.If(x >= 0, x, x + (1 << w))
                return s.wrap(st, ux / b if op == 'udiv' else ux % b, w)
            return s.wrap(st, q if op == 'udiv' else x - q * b, w)
        sb = sgn(b, w)
        if s.nonneg(st, x) and sb > 0: q = s.quot(st, x, sb)
        else: q = z3.If(x >= 0, x / abs(sb), -((-x) / abs(sb))) * (1 if sb > 0 else -1)
        return s.wrap(st, q if op == 'sdiv' else x - q * sb, w)

    def x_cast(s, st, fr, ins):
        fr.regs[ins.d] = s.castop(st, ins.op, ins.b, ins.ty, fr.regs[ins.a])

    def castop(s, st, op, ft, tt, v):
        if v is UNDEF: return UNDEF
        if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and not isinstance(v, Ptr): return Ptr(0, v)
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.o == 0: 
                return v.off & ((1 << tt.w) - 1) if isinstance(v.off, int) else v.off
            return v
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int): return float(v if op == 'uitofp' else sgn(v, ft.w))
            return float('nan')
        if op in ('fptoui', 'fptosi'):
            if v != v or v in (float('inf'), float('-inf')): return s.fresh_in(st, tt.w, 'fp')
            return int(v) & ((1 << tt.w) - 1)
        if op in ('fpext', 'fptrunc'): return v
        if isinstance(v, Ptr):
            if op == 'zext' or op == 'sext': return v
            if isinstance(v.off, int): v = (s.addr(v)) & ((1 << ft.w) - 1)
            else: raise Unsupported('pointer cast')
        if isinstance(v, int):
            if op == 'trunc': return v & ((1 << tt.w) - 1)
            if op == 'zext': return v
            return sgn(v, ft.w) & ((1 << tt.w) - 1)
        if op == 'trunc':
            if tt.w == 1:
                t = ite_consts(v)
                if t is not None:
                    x, y = t[1] & 1, t[2] & 1
                    if x == y: return x
                    return t[0] if x else simp(z3.Not(t[0]))
                return simp(v % 2 == 1)
            return s.wrap(st, v, tt.w)
        if op == 'zext':
            if ft.w == 1: return bv(v, tt.w)
            t = ite_consts(v)
            M = (1 << ft.w) - 1
            if t is not None: return mk(z3.If(t[0], z3.IntVal(t[1] & M), z3.IntVal(t[2] & M)), tt.w)
            if s.nonneg(st, v): return v
            return mk(z3.If(v >= 0, v, v + (1 << ft.w)), tt.w)
        if op == 'sext':
            if ft.w == 1: return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        raise Unsupported(op)

    def x_atomicrmw(s, st, fr, ins):
        if s.env(st, fr): return
        p = fr.regs[ins.a]; v = fr.regs[ins.b]
        old = s.load(st, ins.ty, p)
        op = ins.x
        w = ins.ty.w
        if op == 'xchg': new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): new = s.binop(st, op, w, old, v, 0)
        else: raise Unsupported('atomicrmw ' + op)
        s.store(st, ins.ty, new, p)
        fr.regs[ins.d] = old

    def x_cmpxchg(s, st, fr, ins):
        if s.env(st, fr): return
        p = fr.regs[ins.a]; exp = fr.regs[ins.b]; new = fr.regs[ins.c]
        old = s.load(st, ins.ty, p)
        eq = s.icmp(st, 'eq', ins.ty, old, exp)
        if eq is UNDEF: s.safety(st, 'uninitialised value in compare-exchange')
        if s.decide(st, eq):
            s.store(st, ins.ty, new, p)
            fr.regs[ins.d] = (old, 1)
        else:
            fr.regs[ins.d] = (old, 0)

    # ------------------------------------------------------------ loops with invariants
    def start_inv(s, base, depth, L, phase=0, peeled=False):
        """base: state at the loop header (frame index depth is the top frame), phis set, no ctx for L"""
        import loops
        loops.run_invariant(s, base, depth, L, phase, peeled)

    def check_inv(s, st, c):
        import loops
        loops.check_preserved(s, st, c)


def has_div(e):
    if z3.is_app(e):
        if e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM): return True
        return any(has_div(c) for c in e.children())
    return False


def loop_var(e):
    if z3.is_const(e) and not z3.is_int_value(e): return e.decl().name().split('!')[0] in ('iter', 'hv', 'hp')
    return any(loop_var(c) for c in e.children())


class NeedInv(Exception):
    pass
