"""Contracts of everything outside /repo that the IR calls: the C++ runtime, libstdc++ library functions, pthread
primitives and the vc_* intrinsics of the contract language.  This file is part of the trusted base."""
import re
import z3
from irparse import Unsupported, PTR, VOID
import engine as E
from engine import Ptr, Fn, BI, UNDEF, NULL, Fail, Prune, Fork, LEFT, norm, bv, join

B = {}
PREFIX = []


def b(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f
    return d


def install(eng):
    eng.builtins.update(B)


def cstr(c, p):
    r = c.st.regions.get(p.r)
    if r is None:
        return '?'
    out = []
    o = p.o
    while True:
        x = r.cells.get(o)
        if x is None or x[1] == 0:
            break
        out.append(chr(x[1]))
        o += 1
    return ''.join(out)


def choose(c, n, kind='choice'):
    """concrete nondeterministic choice in range(n), forking"""
    st = c.st
    if st.pending is not None:
        k = st.pending
        st.pending = None
        return k
    if n <= 1:
        return 0

    def mk(k):
        def v(s):
            s.trace.append((kind, k, n))
            s.pending = k
        return v
    raise Fork([mk(k) for k in range(n)])


def fresh(st, w, name='n'):
    st.symn += 1
    x = z3.BitVec('%s%d' % (name, st.symn), w)
    st.trace.append(('sym', x))
    return x


def tobool(c, v):
    """int condition -> 0/1 or z3 Bool"""
    if isinstance(v, int):
        return int(v != 0)
    if isinstance(v, BI):
        return v.b
    if v is UNDEF:
        return UNDEF
    if z3.is_bool(v):
        return v
    return norm(v != 0)


# ---------------------------------------------------------------- contract language
@b('vc_assume')
def _(c):
    v = tobool(c, c.args[0])
    if isinstance(v, int):
        if not v:
            raise Prune('assume')
        return None
    c.st.pc.append(v)
    if not c.e.sat(c.st):
        raise Prune('assume')


def mine(c, text):
    # an assertion labelled with another property of this unit is decided by that property's check
    p = c.e.prop
    return p is None or text[:3] == p or text[:3] not in c.e.unit_props


@b('vc_assert')
def _(c):
    text = cstr(c, c.args[1])
    if mine(c, text):
        c.e.oblige(c.st, tobool(c, c.args[0]), text)


@b('vc_fail')
def _(c):
    text = cstr(c, c.args[0])
    if mine(c, text):
        raise Fail(text, 'assert', 'reached')


@b('vc_cover')
def _(c):
    n = cstr(c, c.args[0])
    c.e.covers[n] = c.e.covers.get(n, 0) + 1


@b('vc_choice')
def _(c):
    return choose(c, c.args[0])


@b('vc_nondet_u64')
def _(c):
    return fresh(c.st, 64)


@b('vc_nondet_u32')
def _(c):
    return fresh(c.st, 32)


@b('vc_opt')
def _(c):
    k, v = cstr(c, c.args[0]), c.args[1]
    if k == 'preemptions' and k in c.e.opts:
        v = min(v, c.e.opts[k])
    c.st.opts[k] = v


@b('vc_symbolic')
def _(c):
    return 1


@b('vc_opaque')
def _(c):
    c.st.replayable = False
    r = c.e.new_region(c.st, 'opaque', 0, cstr(c, c.args[0]))
    return Ptr(r.id, 0)


@b('vc_stop')
def _(c):
    raise Prune('stop')


@b('vc_freeze')
def _(c):
    p, n, why = c.args
    r = c.e.wr(c.st, p.r)
    r.frozen = (r.frozen or ()) + ((p.o, p.o + n, cstr(c, why)),)


@b('vc_unfreeze')
def _(c):
    p = c.args[0]
    if p.r in c.st.regions:
        r = c.e.wr(c.st, p.r)
        r.frozen = None


@b('vc_alive')
def _(c):
    p = c.args[0]
    return int(isinstance(p, Ptr) and p.r in c.st.regions)


@b('vc_forget')
def _(c):
    """the block is handed to the environment for good: no access, no leak obligation"""
    p = c.args[0]
    r = c.e.wr(c.st, p.r)
    r.kind = 'opaque'
    r.size = 0


@b('vc_env_hook')
def _(c):
    p = c.args[0]
    c.st.opts['env_hook'] = p if isinstance(p, Fn) else None
    c.st.replayable = c.st.replayable and True


@b('vc_fold')
def _(c):
    """the block becomes part of a summarised segment: code that still needs it is outside this contract's reach"""
    r = c.e.wr(c.st, c.args[0].r)
    r.kind = 'folded'
    r.size = 0


@b('vc_giveup')
def _(c):
    raise Unsupported('contract does not apply: ' + cstr(c, c.args[0]))


@b('vc_same_object')
def _(c):
    p, q = c.args
    return int(isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r and p.r != 0)


@b('vc_alignment')
def _(c):
    p = c.args[0]
    if not isinstance(p, Ptr) or p.r not in c.st.regions or not isinstance(p.o, int):
        return 0
    a = c.e.ralign.get(p.r, 16)
    if not isinstance(a, int):
        m = re.search(r'align (\d+)', a.line)
        a = c.e.ralign[p.r] = int(m.group(1)) if m else 16
    return a if p.o == 0 else min(a, p.o & -p.o)


@b('vc_guar_hook')
def _(c):
    p = c.args[0]
    c.st.opts['guar_hook'] = p if isinstance(p, Fn) else None


@b('vc_lazy')
def _(c):
    """the initial content of the 8-byte cell at p is chosen by fn(p, arg) when it is first read"""
    p, fn, arg = c.args
    r, o = c.e.access(c.st, p, 8, True)
    r = c.e.wr(c.st, p.r)
    c.e.clear_range(c.st, r, o, 8)
    r.cells[o] = (8, ('gen', fn.name, arg))
    c.st.replayable = False


@b('vc_subst')
def _(c):
    """calls of real are checked against (and replaced by) the contract stub"""
    real, stub = c.args
    d = dict(c.st.opts.get('subst') or {})
    d[real.name] = stub.name
    c.st.opts['subst'] = d
    c.st.replayable = False


@b('vc_model')
def _(c):
    """thread-modular unit: interference is a havoc under the rely condition, so counterexamples are not schedules"""
    c.st.replayable = False
    c.st.opts['closure'] = 1


@b('vc_heap_blocks')
def _(c):
    return sum(1 for r in c.st.regions.values() if r.kind == 'heap')


@b('vc_hook_begin')
def _(c):
    c.st.in_hook = True


@b('vc_hook_end')
def _(c):
    c.st.in_hook = False


@b('vc_is_null')
def _(c):
    p = c.args[0]
    return int(p == NULL)


# ---------------------------------------------------------------- threads
@b('vc_spawn')
def _(c):
    fn, arg = c.args
    st, e = c.st, c.e
    tid = len(st.threads)
    t = E.Thread(tid)
    par = c.th
    t.clock = join({tid: 1}, par.clock)
    e.tick(par)
    st.threads.append(t)
    st.nthreads += 1
    e.stats["threads"] = max(e.stats.get("threads", 1), st.nthreads)
    e.push_call(st, t, fn.name, [arg])
    return tid


@b('vc_join')
def _(c):
    st = c.st
    c.e.sched_point(st, c.th, c.f, ((('t', c.args[0]),), 'join'))
    t = st.threads[c.args[0]]
    if t.status == 'done':
        c.th.clock = join(c.th.clock, t.clock)
        return None
    c.th.status = 'parked'
    c.th.key = ('join', t.tid)
    return LEFT


@b('vc_join_all')
def _(c):
    st = c.st
    for t in st.threads:
        if t is not c.th and t.status != 'done' and not t.daemon:
            c.th.status = 'parked'
            c.th.key = ('join', t.tid)
            return LEFT
    for t in st.threads:
        if t is not c.th and t.status == 'done':
            c.th.clock = join(c.th.clock, t.clock)


@b('vc_tid')
def _(c):
    return c.th.tid


@b('vc_sched')
def _(c):
    c.e.sched_point(c.st, c.th, c.f, ((('g', 0),), 'w'))


@b('vc_look')
def _(c):
    # about to look at ghost state: ordered with respect to every visible operation of the other threads
    c.e.sched_point(c.st, c.th, c.f, ((('g', 0),), 'all'))


@b('vc_thread_done')
def _(c):
    return int(c.st.threads[c.args[0]].status == 'done')


@b('vc_thread_blocked')
def _(c):
    return int(c.st.threads[c.args[0]].status == 'parked')


def touch(c, p, what):
    if not isinstance(p, Ptr):
        raise Fail('memory-safety', 'mem', '%s on a bad pointer' % what)
    r = c.st.regions.get(p.r)
    if r is None:
        c.e.bad_region(p.r)
    c.e.stats['memchecks'] += 1
    c.e.sync_touch(c.st, c.th, p.r, p.o)
    return (p.r, p.o)


@b('vc_mutex_lock')
def _(c):
    st = c.st
    p = c.args[0]
    c.e.sched_point(st, c.th, c.f, (((p.r, p.o),), 'lock'))
    key = touch(c, p, 'mutex lock')
    own = st.mutex.get(key)
    if own is not None:
        if own == c.th.tid:
            raise Fail('deadlock', 'deadlock', 'a thread locks a mutex it already holds (%s)' % c.e.where(c.th))
        c.th.status = 'parked'
        c.th.key = ('mutex', key)
        return LEFT
    st.mutex[key] = c.th.tid
    c.e.acq(st, c.th, ('m',) + key)
    return 0


@b('vc_mutex_trylock')
def _(c):
    st = c.st
    p = c.args[0]
    c.e.sched_point(st, c.th, c.f, (((p.r, p.o),), 'w'))
    key = touch(c, p, 'mutex try_lock')
    if st.mutex.get(key) is not None:
        return 16
    st.mutex[key] = c.th.tid
    c.e.acq(st, c.th, ('m',) + key)
    return 0


@b('__sanitizer_dtor_callback', '__sanitizer_dtor_callback_fields')
def _(c):
    c.e.destroyed(c.st, c.args[0], c.args[1])


@b('__sanitizer_dtor_callback_vptr')
def _(c):
    c.e.destroyed(c.st, c.args[0], 8)


@b('llvm.threadlocal.address', 'llvm.threadlocal.address.p0')
def _(c):
    p, st, e = c.args[0], c.st, c.e
    tid = c.th.tid
    if tid == 0:
        return p
    k = ('tls', tid, p.r)
    if k not in st.opts:
        g = e.globregions[p.r]
        r = e.new_region(st, 'global', g.size, g.name)
        r.cells = dict(g.cells)
        st.opts[k] = r.id
    return Ptr(st.opts[k], p.o)


@b('memcmp', 'bcmp')
def _(c):
    x, y, n = c.args
    if not isinstance(n, int):
        raise Unsupported('memcmp of symbolic length')
    for i in range(n):
        u, v = (c.e.load(c.st, ('i', 8), c.e.padd(q, i)) for q in (x, y))
        if not (isinstance(u, int) and isinstance(v, int)):
            raise Unsupported('memcmp of symbolic bytes')
        if u != v:
            return 1 if u > v else 0xffffffff
    return 0


@b('vc_mutex_unlock')
def _(c):
    st = c.st
    key = touch(c, c.args[0], 'mutex unlock')
    if st.mutex.get(key) != c.th.tid:
        raise Fail('mutex', 'mem', 'unlock of a mutex the thread does not hold')
    release(c, key)
    return 0


def release(c, key):
    st = c.st
    del st.mutex[key]
    st.sync[('m',) + key] = c.th.clock.copy()
    c.e.tick(c.th)
    for t in st.threads:
        if t.status == 'parked' and t.key == ('mutex', key):
            t.status = 'run'
            t.key = None


@b('vc_mutex_held')
def _(c):
    p = c.args[0]
    return int(c.st.mutex.get((p.r, p.o)) == c.th.tid)


@b('vc_holds_any_mutex')
def _(c):
    return int(any(v == c.th.tid for v in c.st.mutex.values()))


def cv_wait(c, timed):
    st, th, f = c.st, c.th, c.f
    cvp, mp = c.args[0], c.args[1]
    ph = f.regs.get('$cv')
    if ph is None:
        ck = touch(c, cvp, 'condition variable wait')
        mk = touch(c, mp, 'condition variable wait')
        if st.mutex.get(mk) != th.tid:
            raise Fail('mutex', 'mem', 'condition variable wait without holding the mutex')
        c.e.sched_point(st, th, f, ((ck,), 'w'))
        opts = ['park']
        if timed and not st.opts.get('lazy_timeout'):
            opts.append('timeout')
        if st.opts.get('spurious', 0) > 0:
            opts.append('spurious')
        k = opts[choose(c, len(opts))]
        if k == 'spurious':
            st.opts['spurious'] -= 1
        release(c, mk)
        if k == 'park':
            f.regs['$cv'] = ('parked', 0)
            th.status = 'parked'
            th.key = ('timed' if timed else 'cv', ck, c.args[2] if timed else None)
            st.cvw.setdefault(ck, []).append(th.tid)
            return LEFT
        f.regs['$cv'] = ('relock', 1 if k == 'timeout' else 0)
        if k == 'timeout':
            advance(st, c.args[2])
        return LEFT
    if ph[0] == 'parked':
        # woken up
        tout = 0
        if th.key and th.key[0] == 'timeout':
            advance(st, th.key[2])
            tout = 1
        th.key = None
        f.regs['$cv'] = ph = ('relock', tout)
    c.e.sched_point(st, th, RelockFrame(f), (((mp.r, mp.o),), 'lock'))
    mk = touch(c, mp, 'condition variable wait')
    if mk in st.mutex:
        th.status = 'parked'
        th.key = ('mutex', mk)
        return LEFT
    st.mutex[mk] = th.tid
    c.e.acq(st, th, ('m',) + mk)
    del f.regs['$cv']
    return ph[1]


class RelockFrame:
    # distinguishes the re-lock phase of a wait from its first phase
    def __init__(self, f):
        self.uid = f.uid
        self.blk = f.blk
        self.ip = (f.ip, 'relock')
        self.visits = f.visits


def advance(st, dl):
    now = st.opts.get('now', 1000)
    if isinstance(dl, int) and isinstance(now, int):
        d = dl - (1 << 64) if dl >> 63 else dl
        if d > now:
            st.opts['now'] = d
    else:
        x, y = bv(dl, 64), bv(now, 64)
        st.opts['now'] = norm(z3.If(x > y, x, y))


@b('vc_cv_wait')
def _(c):
    return cv_wait(c, False)


@b('vc_cv_timedwait')
def _(c):
    return cv_wait(c, True)


@b('vc_cv_notify_one')
def _(c):
    st = c.st
    p = c.args[0]
    c.e.sched_point(st, c.th, c.f, (((p.r, p.o),), 'w'))
    ck = touch(c, p, 'notify')
    ws = st.cvw.get(ck) or []
    if not ws:
        return None
    k = choose(c, len(ws))
    wake(st, ws[k])
    st.cvw[ck] = ws[:k] + ws[k + 1:]


def wake(st, tid):
    t = st.threads[tid]
    t.status = 'run'
    t.key = None


@b('vc_cv_notify_all')
def _(c):
    st = c.st
    p = c.args[0]
    c.e.sched_point(st, c.th, c.f, (((p.r, p.o),), 'w'))
    ck = touch(c, p, 'notify')
    for w in st.cvw.get(ck) or []:
        wake(st, w)
    st.cvw[ck] = []


@b('vc_cv_destroy')
def _(c):
    st, th = c.st, c.th
    ck = touch(c, c.args[0], 'condition variable destruction')
    if st.nthreads > 1:
        r = c.e.wr(st, ck[0])
        e = r.race and r.race.get(-1 - ck[1])
        if e:
            for rt, rc in e[2].items():
                if rt != th.tid and th.clock.get(rt, 0) < rc:
                    raise Fail('condition-variable', 'race', 'a condition variable is destroyed while another thread may still use it')
            del r.race[-1 - ck[1]]
        if st.sleep:
            c.e.wake_sleepers(st, ck[0], ck[1])
    if c.st.cvw.get(ck):
        raise Fail('condition-variable', 'mem', 'a condition variable is destroyed while a thread waits on it')


@b('vc_now')
def _(c):
    return c.st.opts.get('now', 1000)


@b('vc_set_now')
def _(c):
    c.st.opts['now'] = c.args[0]


# ---------------------------------------------------------------- allocation
def alloc(c, n):
    st = c.st
    if not isinstance(n, int):
        n = c.e.concretize(st, n, 64)
    if st.opts.get('alloc_fail', 0) > 0 and not st.in_hook:
        k = choose(c, 2)
        if k == 1:
            st.opts['alloc_fail'] -= 1
            return None
    name = ''
    for f in reversed(c.th.frames):
        nm = f.fn.name
        if '_M_allocate' in nm or 'allocate' in nm or nm.startswith('_Zn') or 'new_allocator' in nm:
            continue
        name = E.demangle_short(nm) if c.st.opts.get('verbose') else nm[:120]
        break
    r = c.e.new_region(st, 'heap', n, 'allocated in ' + name)
    return Ptr(r.id, 0)


@b('_Znwm', '_Znam', '_ZnwmSt11align_val_t')
def _(c):
    p = alloc(c, c.args[0])
    if p is None:
        return throw_new(c, '_ZTISt9bad_alloc', 8)
    if len(c.args) > 1 and isinstance(c.args[1], int):
        c.e.ralign[p.r] = c.args[1]
    return p


@b('_ZnwmRKSt9nothrow_t')
def _(c):
    p = alloc(c, c.args[0])
    return NULL if p is None else p


@b('malloc', 'vc_alloc')
def _(c):
    p = alloc(c, c.args[0])
    return NULL if p is None else p


@b('_ZdlPv', '_ZdaPv', 'free', 'vc_free', '_ZdlPvSt11align_val_t')
def _(c):
    c.e.free(c.st, c.args[0])


@b('_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t')
def _(c):
    p, n = c.args[0], c.args[1]
    if isinstance(p, Ptr) and p.r in c.st.regions and p.o == 0:
        r = c.st.regions[p.r]
        if isinstance(n, int) and n != r.size:
            raise Fail('memory-safety', 'mem', 'deallocation size %d differs from allocation size %d' % (n, r.size))
    c.e.free(c.st, p)


# ---------------------------------------------------------------- exceptions
@b('__cxa_allocate_exception')
def _(c):
    n = c.args[0]
    r = c.e.new_region(c.st, 'exc', n, 'exception')
    c.st.exc[r.id] = dict(ti=None, dtor=None, rc=0, handlers=0)
    return Ptr(r.id, 0)


@b('__cxa_free_exception')
def _(c):
    p = c.args[0]
    c.st.exc.pop(p.r, None)
    del c.st.regions[p.r]


def tiname(c, p):
    if isinstance(p, Ptr):
        return c.e.rinfo[p.r][1]
    raise Unsupported('typeinfo')


@b('__cxa_init_primary_exception')
def _(c):
    p, ti, dt = c.args
    x = c.st.exc[p.r]
    x['ti'] = tiname(c, ti)
    x['dtor'] = dt.name if isinstance(dt, Fn) else None
    return p


@b('__cxa_throw')
def _(c):
    p, ti, dt = c.args
    x = c.st.exc[p.r]
    x['ti'] = tiname(c, ti)
    x['dtor'] = dt.name if isinstance(dt, Fn) else None
    x['rc'] = 1
    return c.throw(p.r)


def throw_new(c, ti, size, setup=None):
    r = c.e.new_region(c.st, 'exc', size, 'exception ' + ti)
    c.e.zero(r, 0, size)
    c.st.exc[r.id] = dict(ti=ti, dtor=None, rc=1, handlers=0)
    if setup:
        setup(r)
    return c.throw(r.id)


@b('__cxa_begin_catch')
def _(c):
    p = c.args[0]
    x = c.st.exc[p.r]
    x['handlers'] += 1
    c.th.caught.append(p.r)
    c.th.uncaught -= 1
    return p


@b('__cxa_end_catch')
def _(c):
    st, th = c.st, c.th
    rid = th.caught.pop()
    x = st.exc[rid]
    x['handlers'] -= 1
    if x.get('rethrown'):
        # still propagating
        if x['handlers'] == 0:
            x['rethrown'] = False
        return None
    # each throw of the object holds one reference, released by its last end_catch
    if rid in th.caught:
        # same object caught again by an outer handler (rethrow_exception inside a handler)
        pass
    return unref(c, rid)


def unref(c, rid):
    st = c.st
    x = st.exc[rid]
    x['rc'] -= 1
    if x['rc'] > 0:
        return None
    if x['rc'] < 0:
        raise Fail('memory-safety', 'mem', 'exception object released twice')
    dt = x['dtor']

    def fin(eng, st2, th2, rv):
        st2.exc.pop(rid, None)
        st2.regions.pop(rid, None)
    if dt is None or dt not in c.e.m.funcs or dt in c.e.builtins:
        fin(c.e, st, c.th, None)
        return None

    # run the destructor, then complete the interrupted call
    cc = c

    def fin2(eng, st2, th2, rv):
        fin(eng, st2, th2, rv)
        E.CallCtx(eng, st2, th2, th2.frames[-1], cc.ins, cc.name, cc.ret, cc.args, cc.norm, cc.unw).resume(None)
    c.e.push_call(st, c.th, dt, [Ptr(rid, 0)], on_ret=fin2)
    return LEFT


@b('__cxa_rethrow')
def _(c):
    th = c.th
    if not th.caught:
        raise Fail('terminate', 'terminate', 'rethrow without an active exception')
    rid = th.caught[-1]
    c.st.exc[rid]['rethrown'] = True
    return c.throw(rid)


@b('_ZSt17current_exceptionv')
def _(c):
    sret = c.args[0]
    th = c.th
    if th.caught:
        rid = th.caught[-1]
        c.st.exc[rid]['rc'] += 1
        c.e.store(c.st, PTR, Ptr(rid, 0), sret)
    else:
        c.e.store(c.st, PTR, NULL, sret)


@b('_ZNSt15__exception_ptr13exception_ptrC1EPv', '_ZNSt15__exception_ptr13exception_ptrC2EPv')
def _(c):
    this, p = c.args
    c.e.store(c.st, PTR, p, this)
    if p != NULL:
        c.st.exc[p.r]['rc'] += 1


@b('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv')
def _(c):
    p = c.e.load(c.st, PTR, c.args[0])
    if p != NULL:
        if p.r not in c.st.exc:
            raise Fail('memory-safety', 'mem', 'use of a released exception object')
        c.st.exc[p.r]['rc'] += 1


@b('_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv')
def _(c):
    p = c.e.load(c.st, PTR, c.args[0])
    if p != NULL:
        if p.r not in c.st.exc:
            raise Fail('memory-safety', 'mem', 'exception object released twice')
        return unref(c, p.r)


@b('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _(c):
    p = c.e.load(c.st, PTR, c.args[0])
    if p == NULL:
        raise Fail('terminate', 'terminate', 'rethrow_exception of a null exception_ptr')
    if p.r not in c.st.exc:
        raise Fail('memory-safety', 'mem', 'use of a released exception object')
    c.st.exc[p.r]['rc'] += 1
    return c.throw(p.r)


@b('_ZSt19uncaught_exceptionsv')
def _(c):
    return c.th.uncaught


@b('_ZSt18uncaught_exceptionv')
def _(c):
    return 1 if c.th.uncaught else 0


@b('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _(c):
    p = c.args[0]
    if p == NULL:
        return c.e.typeid('null')
    return c.e.typeid(tiname(c, p))


@b('_ZSt9terminatev')
def _(c):
    if c.st.opts.get('expect_terminate'):
        c.e.covers['terminate'] = c.e.covers.get('terminate', 0) + 1
        raise Prune('expected terminate')
    raise Fail('terminate', 'terminate', 'std::terminate is called (%s)' % c.e.where(c.th))


@b('abort', '__cxa_pure_virtual', 'llvm.trap', 'llvm.ubsantrap')
def _(c):
    raise Fail('terminate', 'terminate', '%s is called (%s)' % (c.name, c.e.where(c.th)))


@b('__assert_fail')
def _(c):
    raise Fail('assert', 'assert', 'library assertion fails: %s' % cstr(c, c.args[0]))


@b('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _(c):
    raise Fail('assert', 'assert', 'libstdc++ assertion fails: %s' % cstr(c, c.args[3]))


# library exception classes (object layout: vptr, [string], [code, category])
@b('_ZNSt12future_errorC2ESt10error_code', '_ZNSt12future_errorC1ESt10error_code')
def _(c):
    this, code, cat = c.args
    c.e.store(c.st, PTR, c.e.padd(c.e.global_ptr(c.st, '_ZTVSt12future_error'), 16) if '_ZTVSt12future_error' in c.e.m.globals else NULL, this)
    c.e.store(c.st, ('i', 32), code, c.e.padd(this, 16))
    c.e.store(c.st, PTR, cat, c.e.padd(this, 24))


@b('_ZNSt11logic_errorC2ERKS_', '_ZNSt11logic_errorC1ERKS_', '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorC2EPKc',
   '_ZNSt13runtime_errorC2ERKS_', '_ZNSt13runtime_errorC1EPKc', '_ZNSt11logic_errorC2EOS_', '_ZNSt12length_errorC1EPKc', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt13runtime_errorC1ERKS_',
   '_ZNSt13runtime_errorC2EOS_', '_ZNSt13runtime_errorC1EOS_', '_ZNSt11logic_errorC1EOS_', '_ZNSt13runtime_errorC2EPKc',
   '_ZNSt16invalid_argumentC1EPKc', '_ZNSt16invalid_argumentC2EPKc', '_ZNSt12domain_errorC1EPKc', '_ZNSt11range_errorC1EPKc',
   '_ZNSt14overflow_errorC1EPKc', '_ZNSt12length_errorC2EPKc', '_ZNSt12out_of_rangeC2EPKc')
def _(c):
    c.e.store(c.st, ('i', 64), 0, c.args[0])
    c.e.store(c.st, ('i', 64), 0, c.e.padd(c.args[0], 8))


@b('_ZNSt12future_errorD1Ev', '_ZNSt12future_errorD2Ev', '_ZNSt11logic_errorD1Ev', '_ZNSt11logic_errorD2Ev',
   '_ZNSt17bad_function_callD1Ev', '_ZNSt17bad_function_callD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD2Ev',
   '_ZNSt12bad_weak_ptrD1Ev', '_ZNSt9bad_allocD1Ev', '_ZNSt6thread6_StateD2Ev', '_ZNSt6thread6_StateD1Ev',
   '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt12length_errorD1Ev', '_ZNSt12out_of_rangeD1Ev',
   '_ZNSt16invalid_argumentD1Ev', '_ZNSt16invalid_argumentD2Ev', '_ZNSt12domain_errorD1Ev', '_ZNSt11range_errorD1Ev', '_ZNSt14overflow_errorD1Ev', '_ZNSt12length_errorD2Ev', '_ZNSt12out_of_rangeD2Ev')
def _(c):
    return None


@b('_ZSt15future_categoryv', '_ZNSt3_V216generic_categoryEv', '_ZNSt3_V215system_categoryEv')
def _(c):
    e = c.e
    rid = e.glob.get('$cat' + c.name)
    if rid is None:
        r = E.Region(e.nrid, 'extern', 0, c.name)
        e.nrid += 1
        e.rinfo[r.id] = ('extern', c.name, 0)
        e.globregions[r.id] = r
        rid = e.glob['$cat' + c.name] = r.id
    c.st.regions[rid] = e.globregions[rid]
    return Ptr(rid, 0)


@b('__cxa_guard_acquire')
def _(c):
    v = c.e.load(c.st, ('i', 8), c.args[0])
    return 0 if v == 1 else 1


@b('__cxa_guard_release')
def _(c):
    c.e.store(c.st, ('i', 8), 1, c.args[0])


@b('__cxa_guard_abort', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev')
def _(c):
    return 0


@b('strcmp')
def _(c):
    x, y = cstr(c, c.args[0]), cstr(c, c.args[1])
    return 0 if x == y else (1 if x > y else 0xffffffff)


@b('strlen')
def _(c):
    return len(cstr(c, c.args[0]))


@b('memcpy', 'memmove')
def _(c):
    c.e.memcpy(c.st, c.args[0], c.args[1], c.args[2])
    return c.args[0]


def p_memcpy(c):
    c.e.memcpy(c.st, c.args[0], c.args[1], c.args[2])


def p_memset(c):
    c.e.memset(c.st, c.args[0], c.args[1], c.args[2])


def p_throw_unsupported(c):
    raise Fail('library-error', 'terminate', '%s is called' % E.demangle_short(c.name))


def p_stacksave(c):
    return NULL


def p_none(c):
    return None


def p_expect(c):
    return c.args[0]


PREFIX += [('llvm.memcpy', p_memcpy), ('llvm.memmove', p_memcpy), ('llvm.memset', p_memset),
           ('_ZSt20__throw_', p_throw_unsupported), ('_ZSt24__throw_', p_throw_unsupported),
           ('_ZSt19__throw_', p_throw_unsupported), ('_ZSt17__throw_', p_throw_unsupported),
           ('_ZSt28__throw_', p_throw_unsupported), ('_ZSt25__throw_', p_throw_unsupported), ('llvm.stacksave', p_stacksave),
           ('llvm.stackrestore', p_none), ('llvm.expect', p_expect), ('llvm.prefetch', p_none)]


def minmax(c):
    op = c.name.split('.')[1]
    w = c.ret[1]
    x, y = c.args
    pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
    return x if c.e.decide(c.st, c.e.icmp(c.st, pred, c.ret, x, y)) else y


for _n in ('umin', 'umax', 'smin', 'smax'):
    PREFIX.append(('llvm.%s.' % _n, minmax))


def with_overflow(c):
    # {iN, i1} @llvm.*.with.overflow
    parts = c.name.split('.')
    op, w = parts[1], int(parts[-1][1:])
    x, y = c.args
    s, o = op[0], op[1:]
    r = c.e.binop(c.st, o, ('i', w), x, y)
    ext = z3.SignExt if s == 's' else z3.ZeroExt
    ww = 2 * w
    X, Y = ext(w, bv(x, w)), ext(w, bv(y, w))
    R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[o]
    ov = norm(R != ext(w, bv(r, w)))
    return (r, ov)


for _o in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul'):
    PREFIX.append(('llvm.%s.with.overflow' % _o, with_overflow))


def bitcount(c):
    op = c.name.split('.')[1]
    w = c.ret[1]
    x = c.args[0]
    if not isinstance(x, int):
        raise Unsupported('%s of a symbolic value' % c.name)
    x &= (1 << w) - 1
    if op == 'ctpop':
        return bin(x).count('1')
    if x == 0:
        return w
    return w - x.bit_length() if op == 'ctlz' else (x & -x).bit_length() - 1


for _n in ('ctpop', 'ctlz', 'cttz'):
    PREFIX.append(('llvm.%s.' % _n, bitcount))
