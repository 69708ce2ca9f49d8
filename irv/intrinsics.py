"""Contracts of external functions (C/C++ runtime) and the verification intrinsics."""
import z3
import engine as E
from engine import Ptr, NULLP, UNDEF, PathEnd, Unsupported, simp, bv, bo, is_sym, THROWERS, Budget
from irparse import *


def cstr(s, st, p):
    o = s.obj(st, p.o)
    out = bytearray()
    off = p.off
    while True:
        v = s.read_cell(o, off, 1)
        if not isinstance(v, int) or v == 0: break
        out.append(v); off += 1
    return out.decode('latin1')


def do_throw_new(s, st, ti):
    o = s.alloc(st, 64, 'exception', ti)
    st.ghost[('exti', o.o)] = ti
    # vtable pointer unknown: opaque std exception
    s.throw(st, o, ti)


def table(s):
    T = {}

    def reg(*names):
        def d(f):
            for n in names: T[n] = f
            return f
        return d

    # ------------------------------------------------------------ harness intrinsics
    def nondet(w, st, fr, ins, a):
        nm = cstr(s, st, a[0])
        v = s.fresh_in(st, w, nm)
        st.trace.append((nm, v, w))
        s.finish_call(st, fr, ins, v)
    def nondet_range(st, fr, ins, a):
        nm = cstr(s, st, a[0])
        v = s.fresh_in(st, 64, nm)
        st.trace.append((nm, v, 64))
        c = simp(z3.And(bv(a[1], 64) <= v, v < bv(a[2], 64)))
        if isinstance(c, int):
            if not c: raise PathEnd()
        else:
            ok, m = s.feasible(st, c)
            if not ok: raise PathEnd()
            s.add(st, c)
            if st.model is None: st.model = m
        s.finish_call(st, fr, ins, v)
    T['verif_nondet_range'] = nondet_range
    T['verif_nondet_long'] = lambda st, fr, ins, a: nondet(64, st, fr, ins, a)
    T['verif_nondet_bool'] = lambda st, fr, ins, a: nondet(1, st, fr, ins, a)
    T['verif_nondet_int'] = lambda st, fr, ins, a: nondet(32, st, fr, ins, a)

    @reg('verif_assume')
    def _(st, fr, ins, a):
        c = a[0]
        if isinstance(c, int):
            if not c: raise PathEnd()
        else:
            c = simp(c)
            if isinstance(c, int):
                if not c: raise PathEnd()
            else:
                k = st.known.get(c.get_id())
                if k is None or not k[1]:
                    ok, m = s.feasible(st, c)
                    if not ok: raise PathEnd()
                    s.add(st, c)
                    if st.model is None: st.model = m
        s.finish_call(st, fr, ins, None)

    @reg('verif_assert')
    def _(st, fr, ins, a):
        c = a[0]
        if c is UNDEF: c = 0
        s.oblig(st, c if isinstance(c, int) else bo(c), cstr(s, st, a[1]))
        s.finish_call(st, fr, ins, None)

    @reg('verif_cover')
    def _(st, fr, ins, a):
        nm = cstr(s, st, a[0])
        if not s.suppress:
            if not s.covers.get(nm):
                r = s.check(st.cons, None)[0]
                if r == 'sat': s.covers[nm] = s.covers.get(nm, 0) + 1
            else: s.covers[nm] += 1
        s.finish_call(st, fr, ins, None)

    @reg('verif_stop')
    def _(st, fr, ins, a): raise PathEnd()

    @reg('verif_touch')
    def _(st, fr, ins, a):
        st.touch += 1
        s.finish_call(st, fr, ins, None)

    @reg('verif_choice')
    def _(st, fr, ins, a):
        n = a[0]; nm = cstr(s, st, a[1])
        for k in range(1, n):
            o = st.fork(s)
            o.trace.append((nm, k, 32))
            o.path.append('%s=%d' % (nm, k))
            try:
                s.finish_call(o, o.frames[-1], ins, k)
                s.work.append(o)
            except PathEnd: pass
        st.trace.append((nm, 0, 32))
        st.path.append('%s=0' % nm)
        s.finish_call(st, fr, ins, 0)

    @reg('verif_ite')
    def _(st, fr, ins, a):
        c = a[0]
        if isinstance(c, int): v = a[1] if c else a[2]
        else: v = E.mk(z3.If(c, bv(a[1], 64), bv(a[2], 64)), 64)
        s.finish_call(st, fr, ins, v)

    @reg('verif_and')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, simp(z3.And(bo(a[0]), bo(a[1]))))

    @reg('verif_or')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, simp(z3.Or(bo(a[0]), bo(a[1]))))

    @reg('verif_not')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, simp(z3.Not(bo(a[0]))))

    @reg('verif_may')
    def _(st, fr, ins, a):
        c = a[0]
        t = bool(c) if isinstance(c, int) else s.both(st, c)[0]
        s.finish_call(st, fr, ins, int(t))

    @reg('verif_must')
    def _(st, fr, ins, a):
        c = a[0]
        t = bool(c) if isinstance(c, int) else not s.both(st, c)[1]
        s.finish_call(st, fr, ins, int(t))

    def ufdef(nm, k, rng):
        f = s.ufs.get((nm, k))
        if f is None:
            B = z3.IntSort()
            f = s.ufs[(nm, k)] = z3.Function('uf_%s' % nm, *([B] * k + [z3.BoolSort() if rng == 1 else B]))
        return f

    def uf(st, fr, ins, a, k, rng):
        nm = cstr(s, st, a[0])
        for x in a[1:]:
            if x is UNDEF: s.safety(st, 'uninitialised value used')
            if isinstance(x, Ptr): raise Unsupported('pointer argument to uninterpreted function')
        s.finish_call(st, fr, ins, ufdef(nm, k, rng)(*[bv(x, 64) for x in a[1:]]))
    for k in (0, 1, 2, 3):
        T['verif_uf%d' % k] = lambda st, fr, ins, a, k=k: uf(st, fr, ins, a, k, 64)
        T['verif_up%d' % k] = lambda st, fr, ins, a, k=k: uf(st, fr, ins, a, k, 1)

    @reg('verif_depth')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, s.opts.get('depth', 2))

    @reg('verif_log')
    def _(st, fr, ins, a):
        st.path.append('%s %s' % (cstr(s, st, a[0]), a[1]))
        if s.opts.get('debug'): print('LOG', cstr(s, st, a[0]), a[1], flush=True)
        s.finish_call(st, fr, ins, None)

    @reg('verif_concretize')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, s.concretize(st, a[0]) & ((1 << 64) - 1))

    @reg('verif_same_ptr')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, s.icmp(st, 'eq', PTR, a[0], a[1]))

    @reg('verif_is_init')   # is the 8-byte cell initialised
    def _(st, fr, ins, a):
        o, off = s.access(st, a[0], 8, False)
        s.finish_call(st, fr, ins, int(s.read_cell(o, off, 8) is not UNDEF))

    @reg('verif_block_size')   # bytes from p to the end of its block
    def _(st, fr, ins, a):
        p = a[0]
        ob = st.mem.get(p.o) if isinstance(p, Ptr) else None
        s.finish_call(st, fr, ins, 0 if ob is None or not ob.alive else s.binop(st, 'sub', 64, ob.size, p.off, 0))

    @reg('verif_freed')
    def _(st, fr, ins, a):
        p = a[0]
        ob = st.mem.get(p.o) if isinstance(p, Ptr) else None
        s.finish_call(st, fr, ins, 0 if ob is not None and ob.alive else 1)

    @reg('verif_alive')
    def _(st, fr, ins, a):
        p = a[0]
        o = st.mem.get(p.o) if isinstance(p, Ptr) else None
        s.finish_call(st, fr, ins, int(o is not None and o.alive))

    # ------------------------------------------------------------ memory
    def do_new(st, fr, ins, a):
        n = a[0]
        if not isinstance(n, int):
            n = simp(n)
        p = s.alloc(st, n, 'heap')
        s.finish_call(st, fr, ins, p)
    for nm in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'): T[nm] = do_new

    def do_delete(st, fr, ins, a):
        p = a[0]
        if p is UNDEF: s.safety(st, 'memory-safety: delete of uninitialised pointer')
        if isinstance(p, Ptr) and p.o != 0:
            o = s.obj(st, p.o)
            if o is None or o.kind not in ('heap',):
                s.safety(st, 'memory-safety: delete of non-heap pointer')
            if not o.alive: s.safety(st, 'memory-safety: double free')
            if not (isinstance(p.off, int) and p.off == 0): s.safety(st, 'memory-safety: delete of interior pointer')
            o = s.wobj(st, o)
            o.alive = False
            o.cells = {}
        s.finish_call(st, fr, ins, None)
    for nm in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t'): T[nm] = do_delete

    def do_memcpy(st, fr, ins, a):
        n = s.concretize(st, a[2]) if not isinstance(a[2], int) else a[2]
        if n: s.memcpy(st, a[0], a[1], n)
        s.finish_call(st, fr, ins, a[0])
    for nm in ('memcpy', 'memmove'): T[nm] = do_memcpy

    @reg('memset')
    def do_memset(st, fr, ins, a):
        n = s.concretize(st, a[2]) if not isinstance(a[2], int) else a[2]
        if n: s.memset(st, a[0], a[1], n)
        s.finish_call(st, fr, ins, a[0])

    @reg('log', 'log2', 'log10', 'sqrt', 'ceil', 'floor', 'pow', 'llvm.ceil.f64', 'llvm.floor.f64')   # arbitrary result
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, float('nan'))

    @reg('strlen')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, len(cstr(s, st, a[0])))

    @reg('strcmp')
    def _(st, fr, ins, a):
        x, y = cstr(s, st, a[0]), cstr(s, st, a[1])
        s.finish_call(st, fr, ins, 0 if x == y else (1 if x > y else 0xffffffff))

    @reg('memcmp', 'bcmp')
    def _(st, fr, ins, a):
        n = s.concretize(st, a[2])
        r = 0
        for k in range(n):
            x = s.load(st, INT(8), s.padd(a[0], k)); y = s.load(st, INT(8), s.padd(a[1], k))
            if not (isinstance(x, int) and isinstance(y, int)): raise Unsupported('symbolic memcmp')
            if x != y:
                r = 1 if x > y else 0xffffffff
                break
        s.finish_call(st, fr, ins, r)

    # ------------------------------------------------------------ exceptions
    @reg('__cxa_allocate_exception')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, s.alloc(st, a[0], 'exception'))

    @reg('__cxa_free_exception')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, None)

    @reg('__cxa_init_primary_exception')
    def _(st, fr, ins, a):
        st.ghost[('exti', a[0].o)] = s.gname[a[1].o]
        s.finish_call(st, fr, ins, a[0])

    @reg('__cxa_throw')
    def _(st, fr, ins, a):
        ti = s.gname[a[1].o]
        st.ghost[('exti', a[0].o)] = ti
        s.throw(st, a[0], ti)

    @reg('__cxa_begin_catch')
    def _(st, fr, ins, a):
        p = a[0]
        st.caught.append((p, st.ghost.get(('exti', p.o))))
        s.finish_call(st, fr, ins, p)

    @reg('__cxa_get_exception_ptr')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, a[0])

    @reg('__cxa_end_catch')
    def _(st, fr, ins, a):
        if st.caught: st.caught.pop()
        s.finish_call(st, fr, ins, None)

    @reg('__cxa_rethrow')
    def _(st, fr, ins, a):
        if not st.caught: s.safety(st, 'exception-safety: rethrow without active exception')
        p, ti = st.caught[-1]
        s.throw(st, p, ti)

    @reg('_ZSt17current_exceptionv')
    def _(st, fr, ins, a):
        s.store(st, PTR, st.caught[-1][0] if st.caught else NULLP, a[0])
        s.finish_call(st, fr, ins, None)

    @reg('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
    def _(st, fr, ins, a):
        p = s.load(st, PTR, a[0])
        if p is UNDEF or p.o == 0: s.safety(st, 'exception-safety: rethrow of null exception_ptr')
        s.throw(st, p, st.ghost.get(('exti', p.o)))

    def nop(st, fr, ins, a): s.finish_call(st, fr, ins, None)
    for nm in ('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv', '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv',
               '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_guard_abort', '_ZSt16__throw_nothing',
               '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev',
               '_ZNSt11logic_errorD1Ev', '_ZNSt11logic_errorD2Ev', 'sched_yield', 'usleep', 'nanosleep'): T[nm] = nop

    @reg('_ZNSt15__exception_ptr13exception_ptrC1EPv', '_ZNSt15__exception_ptr13exception_ptrC2EPv')
    def _(st, fr, ins, a):
        s.store(st, PTR, a[1], a[0])
        s.finish_call(st, fr, ins, None)

    @reg('_ZNSt15__exception_ptr13exception_ptr4swapERS0_')
    def _(st, fr, ins, a):
        x = s.load(st, PTR, a[0]); y = s.load(st, PTR, a[1])
        s.store(st, PTR, y, a[0]); s.store(st, PTR, x, a[1])
        s.finish_call(st, fr, ins, None)

    @reg('_ZNSt15__exception_ptr13exception_ptrC1ERKS0_', '_ZNSt15__exception_ptr13exception_ptrC2ERKS0_')
    def _(st, fr, ins, a):
        s.store(st, PTR, s.load(st, PTR, a[1]), a[0])
        s.finish_call(st, fr, ins, None)

    @reg('_ZNSt15__exception_ptr13exception_ptrC1Ev', '_ZNSt15__exception_ptr13exception_ptrC2Ev')
    def _(st, fr, ins, a):
        s.store(st, PTR, NULLP, a[0])
        s.finish_call(st, fr, ins, None)

    @reg('_ZNSt15__exception_ptr13exception_ptrD1Ev', '_ZNSt15__exception_ptr13exception_ptrD2Ev')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, None)

    @reg('_ZNSt15__exception_ptr13exception_ptraSERKS0_')
    def _(st, fr, ins, a):
        s.store(st, PTR, s.load(st, PTR, a[1]), a[0])
        s.finish_call(st, fr, ins, a[0])

    @reg('_ZNKSt15__exception_ptr13exception_ptr20__cxa_exception_typeEv')
    def _(st, fr, ins, a):
        p = s.load(st, PTR, a[0])
        s.finish_call(st, fr, ins, Ptr(s.gid(st.ghost[('exti', p.o)]), 0))

    @reg('_ZSt19uncaught_exceptionsv')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, 0)

    @reg('_ZSt18uncaught_exceptionv')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, 0)

    @reg('_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__cxa_call_unexpected', '__cxa_throw_bad_array_new_length')
    def _(st, fr, ins, a):
        s.safety(st, 'undefined behaviour: program terminates (%s)' % s.curname)
        raise PathEnd()

    @reg('__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
    def _(st, fr, ins, a):
        s.safety(st, 'internal assertion of the code fails')
        raise PathEnd()

    def mk(ti):
        return lambda st, fr, ins, a: do_throw_new(s, st, ti)
    for nm, ti in THROWERS.items(): T[nm] = mk(ti)

    # std exception objects constructed by user code: opaque
    def ctor(st, fr, ins, a):
        s.finish_call(st, fr, ins, None)
    for c in ('13runtime_error', '11logic_error', '16invalid_argument', '12out_of_range', '12length_error', '12domain_error'):
        for v in ('D1', 'D2'): T['_ZNSt%s%sEv' % (c, v)] = ctor
        for v in ('C1', 'C2'):
            for arg in ('EPKc', 'ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'ERKS_'):
                T['_ZNSt%s%s%s' % (c, v, arg)] = ctor
    T['_ZNSt11logic_errorC2EPKc'] = ctor

    @reg('__cxa_guard_acquire')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, 1)

    @reg('__cxa_guard_release')
    def _(st, fr, ins, a):
        s.store(st, INT(8), 1, a[0])
        s.finish_call(st, fr, ins, None)

    def zero32(st, fr, ins, a): s.finish_call(st, fr, ins, 0)
    for nm in ('__cxa_atexit', '__cxa_thread_atexit', 'atexit'): T[nm] = zero32

    @reg('__dynamic_cast')
    def _(st, fr, ins, a):
        p = a[0]
        if p.o == 0:
            s.finish_call(st, fr, ins, NULLP); return
        vt = s.load(st, PTR, p)
        off_top = s.load(st, INT(64), s.padd(vt, -16))
        ti = s.load(st, PTR, s.padd(vt, -8))
        dyn = s.gname[ti.o]
        want = s.gname[a[2].o]
        if s.ti_match(dyn, want):
            s.finish_call(st, fr, ins, s.padd(p, sgn(off_top, 64)))
        else:
            s.finish_call(st, fr, ins, NULLP)

    # ------------------------------------------------------------ threads, ghost lock state
    def lockstate(st, p): return st.ghost.get(('mutex', p.o, p.off), 0)

    def concrete_bool(v):
        if isinstance(v, (int, bool)): return 1 if v else 0
        raise Unsupported('verif_env with a symbolic argument')
    s.concrete_bool = concrete_bool

    @reg('verif_env')
    def _(st, fr, ins, a):
        st.ghost['env'] = s.concrete_bool(a[0])
        st.ghost.pop('envdone', None)
        s.finish_call(st, fr, ins, None)

    @reg('verif_monitor')
    def _(st, fr, ins, a):
        s.monitors = True
        k = ('mon', a[0].o)
        st.ghost[k] = st.ghost.get(k, ()) + ((a[0].off, a[0].off + a[1], cstr(s, st, a[2])),)
        s.finish_call(st, fr, ins, None)

    @reg('verif_monitor_by')
    def _(st, fr, ins, a):
        s.monitors = True
        k = ('mon', a[0].o)
        st.ghost[k] = st.ghost.get(k, ()) + ((a[0].off, a[0].off + a[1], cstr(s, st, a[3]), (a[2].o, a[2].off)),)
        s.finish_call(st, fr, ins, None)

    @reg('verif_monitor_off')
    def _(st, fr, ins, a):
        st.ghost['monoff'] = a[0]
        s.finish_call(st, fr, ins, None)

    def lk(st, fr, ins, a):
        p = a[0]
        if s.env(st, fr): return
        if p.o == 0 or s.obj(st, p.o) is None or not s.obj(st, p.o).alive: s.safety(st, 'memory-safety: lock of dead mutex')
        if lockstate(st, p) != 0:
            if st.ghost.get('inenv'): raise PathEnd()   # the other thread has to wait: it does not run at this point
            s.safety(st, 'lock-discipline: mutex locked twice by the same thread')
        st.ghost[('mutex', p.o, p.off)] = 1
        st.ghost['held'] = st.ghost.get('held', 0) + 1
        s.finish_call(st, fr, ins, 0)
    T['pthread_mutex_lock'] = lk
    T['pthread_rwlock_wrlock'] = lk
    T['pthread_rwlock_rdlock'] = lk

    def trylk(st, fr, ins, a):
        p = a[0]
        if lockstate(st, p) != 0:
            s.finish_call(st, fr, ins, 16); return
        # may also be held by another thread
        o = st.fork(s)
        o.trace.append(('trylock_busy', 1, 32))
        try:
            s.finish_call(o, o.frames[-1], ins, 16)
            s.work.append(o)
        except PathEnd: pass
        lk(st, fr, ins, a)
    T['pthread_mutex_trylock'] = trylk

    def unlk(st, fr, ins, a):
        p = a[0]
        if lockstate(st, p) != 1: s.safety(st, 'lock-discipline: unlock of a mutex that is not held')
        st.ghost[('mutex', p.o, p.off)] = 0
        st.ghost['held'] = st.ghost.get('held', 0) - 1
        s.finish_call(st, fr, ins, 0)
    T['pthread_mutex_unlock'] = unlk
    T['pthread_rwlock_unlock'] = unlk

    @reg('verif_mutex_held')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, int(lockstate(st, a[0]) == 1))

    @reg('verif_locks_held')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, st.ghost.get('held', 0))

    T['pthread_mutex_init'] = zero32
    T['pthread_mutex_destroy'] = zero32
    for nm in ('pthread_rwlock_init', 'pthread_rwlock_destroy', 'pthread_cond_destroy', 'pthread_cond_init', 'pthread_cond_signal',
               'pthread_cond_broadcast', 'pthread_mutexattr_init', 'pthread_mutexattr_settype', 'pthread_mutexattr_destroy',
               'pthread_condattr_init', 'pthread_condattr_destroy', 'pthread_condattr_setclock'): T[nm] = zero32

    @reg('pthread_self')
    def _(st, fr, ins, a): s.finish_call(st, fr, ins, 1)

    @reg('pthread_once')
    def _(st, fr, ins, a):
        k = ('once', a[0].o)
        if st.ghost.get(k): return s.finish_call(st, fr, ins, 0)
        st.ghost[k] = 1
        s.call_fn(st, s.funcid[a[1].o], [], None, lambda st2, v: (0,), ins)

    def cond(st, fr, ins, a): s.finish_call(st, fr, ins, None)
    for nm in ('_ZNSt18condition_variable10notify_oneEv', '_ZNSt18condition_variable10notify_allEv',
               '_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev', '_ZNSt18condition_variableC2Ev', '_ZNSt18condition_variableD2Ev'): T[nm] = cond

    @reg('_ZNSt6chrono3_V212steady_clock3nowEv', '_ZNSt6chrono3_V212system_clock3nowEv', 'time', 'clock')
    def _(st, fr, ins, a):
        v = s.fresh_in(st, 64, 'now')
        last = st.ghost.get('now')
        c = z3.And(v >= (last if last is not None else 0), v < (1 << 62))
        s.add(st, c)
        st.ghost['now'] = v
        s.finish_call(st, fr, ins, v)

    # ------------------------------------------------------------ red-black trees (ordered containers) are not modelled
    return T


def prefixes(s):
    L = []

    def ovf(op):
        def h(st, fr, ins, a):
            w = ins.b[0][1].w
            signed = 's' == s.curname.split('.')[1][0]
            r = s.binop(st, op, w, a[0], a[1], 0)
            if isinstance(a[0], int) and isinstance(a[1], int):
                x = sgn(a[0], w) if signed else a[0]; y = sgn(a[1], w) if signed else a[1]
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1))) if signed else (0, 1 << w)
                o = int(not lo <= z < hi)
            else:
                x, y = bv(a[0], w), bv(a[1], w)
                if not signed:
                    x = x if s.nonneg(st, x) else z3.If(x >= 0, x, x + (1 << w))
                    y = y if s.nonneg(st, y) else z3.If(y >= 0, y, y + (1 << w))
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1))) if signed else (0, 1 << w)
                o = simp(z3.Or(z < lo, z >= hi))
            s.finish_call(st, fr, ins, (r, o))
        return h
    for o, n in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul')):
        L.append(('llvm.u%s.with.overflow' % n, ovf(o)))
        L.append(('llvm.s%s.with.overflow' % n, ovf(o)))

    def mc(st, fr, ins, a):
        n = a[2] if isinstance(a[2], int) else s.concretize(st, a[2])
        if n: s.memcpy(st, a[0], a[1], n)
        s.finish_call(st, fr, ins, None)

    def ms(st, fr, ins, a):
        n = a[2] if isinstance(a[2], int) else s.concretize(st, a[2])
        if n: s.memset(st, a[0], a[1], n)
        s.finish_call(st, fr, ins, None)
    L.append(('llvm.memcpy', mc)); L.append(('llvm.memmove', mc)); L.append(('llvm.memset', ms))

    def tid(st, fr, ins, a):
        p = a[0]
        s.finish_call(st, fr, ins, s.tid(s.gname[p.o]) if p.o else s.tid(None))
    L.append(('llvm.eh.typeid.for', tid))

    def trap(st, fr, ins, a):
        s.safety(st, 'undefined behaviour: trap')
        raise PathEnd()
    L.append(('llvm.trap', trap)); L.append(('llvm.ubsantrap', trap))

    def ident(st, fr, ins, a): s.finish_call(st, fr, ins, a[0])
    L.append(('llvm.threadlocal.address', ident)); L.append(('llvm.expect', ident)); L.append(('llvm.launder', ident)); L.append(('llvm.strip.invariant', ident))

    def isc(st, fr, ins, a): s.finish_call(st, fr, ins, 0)
    L.append(('llvm.is.constant', isc))

    def objsize(st, fr, ins, a): s.finish_call(st, fr, ins, (1 << 64) - 1)
    L.append(('llvm.objectsize', objsize))

    def minmax(f):
        def h(st, fr, ins, a):
            w = ins.ty.w
            c = s.icmp(st, f, ins.ty, a[0], a[1])
            if isinstance(c, int): v = a[0] if c else a[1]
            else: v = E.mk(z3.If(c, bv(a[0], w), bv(a[1], w)), w)
            s.finish_call(st, fr, ins, v)
        return h
    for n, f in (('umin', 'ult'), ('umax', 'ugt'), ('smin', 'slt'), ('smax', 'sgt')): L.append(('llvm.%s.' % n, minmax(f)))

    def nop(st, fr, ins, a): s.finish_call(st, fr, ins, None)
    L.append(('llvm.stackrestore', nop)); L.append(('llvm.sideeffect', nop)); L.append(('llvm.donothing', nop))

    def ssave(st, fr, ins, a): s.finish_call(st, fr, ins, NULLP)
    L.append(('llvm.stacksave', ssave))

    def ctlz(st, fr, ins, a):
        w = ins.ty.w
        if not isinstance(a[0], int): raise Unsupported('symbolic ctlz')
        s.finish_call(st, fr, ins, w - a[0].bit_length())
    L.append(('llvm.ctlz', ctlz))

    def cttz(st, fr, ins, a):
        w = ins.ty.w
        if not isinstance(a[0], int): raise Unsupported('symbolic cttz')
        s.finish_call(st, fr, ins, (a[0] & -a[0]).bit_length() - 1 if a[0] else w)
    L.append(('llvm.cttz', cttz))

    def absf(st, fr, ins, a):
        w = ins.ty.w
        v = a[0]
        if isinstance(v, int): v = abs(sgn(v, w)) & ((1 << w) - 1)
        else: v = E.mk(z3.If(v < 0, -v, v), w)
        s.finish_call(st, fr, ins, v)
    L.append(('llvm.abs.', absf))
    return L
