"""Verification-condition generator: symbolic execution of LLVM IR with contracts.

A proof unit is a C++ function of a contract file (see contracts/vc.h).  The engine executes it together with the real
code it calls; every path is enumerated, every data choice is symbolic (z3 bit vectors) or forked, every obligation
(vc_assert, memory safety, data-race freedom, absence of deadlock, no std::terminate, no failed assert(), no leak) is
discharged on every path.  Threads are explicit frame stacks; scheduling choices are forked at every synchronisation
operation.  Happens-before is tracked with vector clocks using the memory orders in the IR.
"""
import sys
import time
import z3
from irparse import Module, Function, Unsupported, PTR, VOID

sys.setrecursionlimit(20000)

ALIGN = 16


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and isinstance(self.o, int) and isinstance(x.o, int) and self.o == x.o

    def __hash__(self):
        return hash((self.r, self.o if isinstance(self.o, int) else 0))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return isinstance(x, Fn) and x.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class BI:
    """an integer that is a zero-extended boolean"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'BI(%s)' % self.b


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
NULL = Ptr(0, 0)


DEAD = ('dead',)


class Fail(Exception):
    """a failed obligation on the current path"""

    def __init__(self, name, kind, msg, extra=None):
        Exception.__init__(self, '%s: %s' % (name, msg))
        self.name = name
        self.kind = kind
        self.msg = msg
        self.extra = extra


class Prune(Exception):
    """path ends quietly (assumption false, bound reached)"""

    def __init__(self, why):
        self.why = why


class Fork(Exception):
    """re-execute the current instruction in each of the given (setup, label) variants"""

    def __init__(self, variants):
        self.variants = variants


class Region:
    __slots__ = ('id', 'kind', 'size', 'cells', 'owner', 'frozen', 'race', 'name', 'ghost', 'full')

    def __init__(self, id, kind, size, name):
        self.ghost = False
        self.full = None    # size, while a local object is out of scope
        self.id = id
        self.kind = kind
        self.size = size
        self.cells = {}
        self.owner = None
        self.frozen = None
        self.race = None
        self.name = name

    def copy(self, owner):
        r = Region(self.id, self.kind, self.size, self.name)
        r.ghost = self.ghost
        r.full = self.full
        r.cells = self.cells.copy()
        r.owner = owner
        r.frozen = self.frozen
        r.race = {k: (v[0], v[1], v[2].copy(), v[3]) for k, v in self.race.items()} if self.race else None
        return r


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'allocas', 'dst', 'norm', 'unw', 'on_ret', 'uid', 'code', 'retty', 'visits')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.prev = self.prev
        f.regs = self.regs.copy()
        f.allocas = self.allocas[:]
        f.dst = self.dst
        f.norm = self.norm
        f.unw = self.unw
        f.on_ret = self.on_ret
        f.uid = self.uid
        f.code = self.code
        f.retty = self.retty
        f.visits = self.visits.copy() if self.visits else None
        return f


class Thread:
    __slots__ = ('tid', 'frames', 'status', 'key', 'clock', 'caught', 'acqf', 'relf', 'daemon', 'retval', 'final', 'smark', 'emark', 'at', 'nextop', 'grants', 'uncaught')

    def __init__(self, tid):
        self.tid = tid
        self.frames = []
        self.status = 'run'
        self.key = None
        self.clock = {tid: 1}
        self.caught = []
        self.acqf = None    # pending acquire (relaxed loads before an acquire fence)
        self.relf = None    # release fence clock
        self.daemon = False
        self.retval = None
        self.final = False
        self.smark = None
        self.emark = None
        self.at = None
        self.nextop = None
        self.grants = 0
        self.uncaught = 0   # std::uncaught_exceptions()

    def copy(self):
        t = Thread(self.tid)
        t.frames = [f.copy() for f in self.frames]
        t.status = self.status
        t.key = self.key
        t.clock = self.clock.copy()
        t.caught = self.caught[:]
        t.acqf = self.acqf
        t.relf = self.relf
        t.daemon = self.daemon
        t.final = self.final
        t.smark = self.smark
        t.emark = self.emark
        t.at = self.at
        t.nextop = self.nextop
        t.grants = self.grants
        t.uncaught = self.uncaught
        return t


class State:
    def __init__(self):
        self.regions = {}
        self.threads = []
        self.cur = 0
        self.pc = []
        self.trace = []
        self.exc = {}
        self.opts = {}
        self.sync = {}
        self.mutex = {}     # (rid,off) -> owner tid
        self.token = object()
        self.npre = 0       # preemptions used
        self.nthreads = 1
        self.symn = 0
        self.steps = 0
        self.replayable = True
        self.allocseq = 0
        self.pending = None
        self.in_hook = False
        self.loopinfo = {}
        self.sleep = {}
        self.lastgrant = None
        self.cvw = {}       # cv key -> list of parked tids

    def clone(self):
        s = State.__new__(State)
        s.regions = self.regions.copy()
        s.threads = [t.copy() for t in self.threads]
        s.cur = self.cur
        s.pc = self.pc[:]
        s.trace = self.trace[:]
        s.exc = {k: v.copy() for k, v in self.exc.items()}
        s.opts = self.opts.copy()
        s.sync = self.sync.copy()
        s.mutex = self.mutex.copy()
        s.token = object()
        self.token = object()
        s.npre = self.npre
        s.nthreads = self.nthreads
        s.symn = self.symn
        s.steps = self.steps
        s.replayable = self.replayable
        s.allocseq = self.allocseq
        s.pending = None
        s.in_hook = self.in_hook
        s.loopinfo = self.loopinfo.copy()
        s.sleep = self.sleep
        s.lastgrant = self.lastgrant
        s.cvw = {k: v[:] for k, v in self.cvw.items()}
        return s


def join(a, b):
    """join clock b into a (returns new dict)"""
    if not b:
        return a
    r = a.copy()
    for k, v in b.items():
        if r.get(k, 0) < v:
            r[k] = v
    return r


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, BI):
        return z3.If(v.b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def norm(v):
    """simplify a z3 value; concrete values become ints"""
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


ORD = {'unordered': 0, 'monotonic': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}

# external type_info hierarchy (libstdc++)
EXT_BASES = {
    '_ZTISt12future_error': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt9exception': [], '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
}


class Decoded:
    """decoded function: blocks -> list of instrs, plus loop headers"""
    __slots__ = ('fn', 'blocks', 'entry', 'loops', 'params', 'refcount')


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.glob = {}          # global name -> region id
        self.globregions = {}
        self.nrid = 1
        self.nuid = 1
        self.dec = {}
        self.builtins = {}
        self.binames = {}
        self.stats = dict(paths=0, instrs=0, solver_calls=0, solver_time=0.0, forks=0, pruned=0, memchecks=0, racechecks=0,
                          incomplete=0, sched=0, asleep=0)
        self.obl = {}           # name -> [count concrete, count solver]
        self.covers = {}
        self.funcs_run = set()
        self.substituted = set()
        self.rinfo = {}
        self.failures = []
        self.unsupported = None
        self.bounded = {}       # reason -> count  (paths cut by a bound)
        self.assumes = {}
        self.opts = opts or {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.typeids = {}
        self.deadline = None
        self.max_fail = 3
        self.prop = None        # property being decided (None: all)
        self.unit_props = ()
        self.cvc5 = None
        self.smt_dump = None
        import builtins_vc
        builtins_vc.install(self)
        import closure
        self.ralign = {}    # region -> alloca instruction or alignment
        self.loopeng = closure.Closure()

    # ------------------------------------------------------------------ memory
    def new_region(self, st, kind, size, name=''):
        rid = self.nrid
        self.nrid += 1
        r = Region(rid, kind, size, name)
        r.owner = st.token
        st.regions[rid] = r
        self.rinfo[rid] = (kind, name, size)
        return r

    def wr(self, st, rid):
        r = st.regions.get(rid)
        if r is None:
            self.bad_region(rid)
        if r.owner is not st.token:
            r = r.copy(st.token)
            st.regions[rid] = r
        return r

    def bad_region(self, rid):
        if rid == 0:
            raise Fail('memory-safety', 'mem', 'null pointer dereference')
        k = self.rinfo.get(rid)
        if k is None:
            raise Fail('memory-safety', 'mem', 'access through a non-pointer')
        raise Fail('memory-safety', 'mem', 'access to %s object %s after its lifetime ended' % (k[0], k[1]))

    def global_ptr(self, st, name):
        rid = self.glob.get(name)
        if rid is None:
            if name in self.m.aliases:
                t = self.m.aliases[name]
                return self.const(st, PTR, t)
            if name in self.m.funcs or name in self.m.decls:
                return Fn(name)
            g = self.m.globals.get(name)
            if g is None:
                raise Unsupported('unknown global ' + name)
            ty, init, const = g
            rid = self.nrid
            self.nrid += 1
            self.glob[name] = rid
            try:
                size = self.m.sizeof(ty)
            except Unsupported:
                size = 0
            r = Region(rid, 'const' if const else 'global', size, name)
            self.rinfo[rid] = (r.kind, name, size)
            self.globregions[rid] = r
            if init is not None:
                self.init_global(r, 0, ty, init)
            elif name == '__libc_single_threaded':
                r.cells[0] = (1, 0)
            else:
                r.kind = 'extern'
                if name.startswith('_ZTVS'):
                    self.extern_vtable(r, name)
            r.ghost = name.startswith('_ZN2vc')
        if rid not in st.regions:
            st.regions[rid] = self.globregions[rid]
        return Ptr(rid, 0)

    def extern_vtable(self, r, name):
        """vtable of a std exception class defined in libstdc++ (trusted): complete destructor, deleting destructor, what()"""
        cls = name[4:]
        if not cls.startswith('St') or not cls[2:].lstrip('0123456789') :
            return
        r.size = 40
        r.cells[16] = (8, Fn('_ZN%sD1Ev' % cls))
        r.cells[24] = (8, Fn('_ZN%sD0Ev' % cls))
        r.cells[32] = (8, Fn('_ZNK%s4whatEv' % cls))

    def init_global(self, r, off, ty, v):
        t = self.m.resolve(ty)
        k = v[0]
        if k == 'zero':
            self.zero(r, off, self.m.sizeof(t))
        elif k == 'undef':
            pass
        elif k == 'agg':
            if t[0] == 'struct':
                offs = self.m.field_offsets(t)
                for (ety, ev), o in zip(v[1], offs):
                    self.init_global(r, off + o, ety, ev)
            else:
                es = self.m.sizeof(t[2])
                for i, (ety, ev) in enumerate(v[1]):
                    self.init_global(r, off + i * es, ety, ev)
        elif k == 'str':
            for i, b in enumerate(v[1]):
                r.cells[off + i] = (1, b)
        elif k == 'null':
            r.cells[off] = (8, NULL)
        elif k == 'c':
            r.cells[off] = (self.m.sizeof(t), v[1])
        else:
            # addresses: resolved lazily
            r.cells[off] = (self.m.sizeof(t), ('lazy', v, t))

    def zero(self, r, off, n):
        # zero fill with 8-byte cells where aligned
        e = off + n
        while off < e:
            if off % 8 == 0 and e - off >= 8:
                r.cells[off] = (8, 0)
                off += 8
            elif off % 4 == 0 and e - off >= 4:
                r.cells[off] = (4, 0)
                off += 4
            else:
                r.cells[off] = (1, 0)
                off += 1

    def access(self, st, p, size, write, atomic=False):
        """checks an access; returns (region, concrete offset)"""
        if not isinstance(p, Ptr):
            if p is UNDEF:
                raise Fail('memory-safety', 'mem', 'access through an indeterminate pointer')
            if isinstance(p, int):
                raise Fail('memory-safety', 'mem', 'access through integer %#x' % p)
            raise Fail('memory-safety', 'mem', 'access through a non-object pointer %r' % (p,))
        self.stats['memchecks'] += 1
        r = st.regions.get(p.r)
        if r is None:
            if p.r in self.globregions:
                r = st.regions[p.r] = self.globregions[p.r]
            else:
                self.bad_region(p.r)
        o = p.o
        if not isinstance(o, int):
            o = self.concretize(st, o, 64)
        if o >> 63:
            o -= 1 << 64
        if o < 0 or o + size > r.size:
            if r.kind == 'opaque':
                raise Fail('frame', 'mem', 'access to an object owned by another thread (%s)' % r.name)
            if r.kind == 'extern':
                raise Unsupported('access to external object ' + r.name)
            if r.kind == 'folded':
                raise Unsupported('access to a summarised object')
            if r.full is not None:
                raise Fail('memory-safety', 'mem', 'access to local object %s after its scope ended' % r.name)
            raise Fail('memory-safety', 'mem', 'out of bounds access to %s object %s (offset %d size %d of %s)' % (
                r.kind, r.name, o, size, r.size))
        if write:
            if r.kind == 'const':
                raise Fail('memory-safety', 'mem', 'write to constant %s' % r.name)
            if r.frozen is not None and not atomic:
                for a, b, why in r.frozen:
                    if o < b and o + size > a:
                        raise Fail('frame', 'frozen', 'write to %s' % why)
        if st.nthreads > 1 and r.kind != 'const':
            self.race(st, r, o, size, write, atomic)
            r = st.regions[p.r]
        return r, o

    def race(self, st, r, o, size, write, atomic):
        t = st.threads[st.cur]
        if r.kind == 'stack' and r.race is None and r.owner is st.token and False:
            return
        if st.in_hook or r.ghost:
            return
        self.stats['racechecks'] += 1
        if r.owner is not st.token:
            r = r.copy(st.token)
            st.regions[r.id] = r
        if r.race is None:
            r.race = {}
        e = r.race.get(o)
        tid = t.tid
        clk = t.clock[tid]
        if e is not None:
            wt, wc, rd, ad = e
            # non-atomic last write must happen before any access by another thread
            if wt is not None and wt != tid and t.clock.get(wt, 0) < wc:
                raise Fail('data-race', 'race', 'access to %s+%d (%s, in %s) is not ordered after a write by another thread' % (
                    r.name or r.kind, o, r.kind, t.frames[-1].fn.name))
            if write and not atomic or (write and atomic):
                for rt, rc in rd.items():
                    if rt != tid and t.clock.get(rt, 0) < rc:
                        raise Fail('data-race', 'race', 'write to %s+%d (%s, in %s) is not ordered after a read by another thread' % (
                            r.name or r.kind, o, r.kind, t.frames[-1].fn.name))
            if not atomic:
                # atomic writes by others must be ordered before plain accesses
                for at_, ac in ad.items():
                    if at_ != tid and t.clock.get(at_, 0) < ac:
                        raise Fail('data-race', 'race', 'plain access to %s+%d (%s, in %s) races with an atomic write' % (
                            r.name or r.kind, o, r.kind, t.frames[-1].fn.name))
        else:
            wt, wc, rd, ad = None, 0, {}, {}
        if atomic:
            if write:
                ad = ad.copy()
                ad[tid] = clk
            r.race[o] = (wt, wc, rd, ad)
        elif write:
            r.race[o] = (tid, clk, {}, {})
        else:
            rd = rd.copy()
            rd[tid] = clk
            r.race[o] = (wt, wc, rd, ad)

    def lazy(self, st, r, off, size, v):
        v = self.const(st, v[2], v[1])
        r.cells[off] = (size, v)
        return v

    def load_raw(self, st, r, o, size):
        c = r.cells.get(o)
        if c is not None and c[0] == size:
            v = c[1]
            if type(v) is tuple and v:
                if v[0] == 'lazy':
                    v = self.lazy(st, r, o, size, v)
                elif v[0] == 'gen':
                    self.generate(st, r, o, v)
                elif v[0] == 'dead':
                    self.read_dead(r, o)
            return v
        return self.load_slow(st, r, o, size)

    def read_dead(self, r, o):
        raise Fail('memory-safety', 'mem', 'read of a member of a destroyed object (%s object %s, offset %d)' % (r.kind, r.name, o))

    def destroyed(self, st, p, n):
        """a destructor has finished: the members [p, p+n) end their lifetime (their memory may live on)"""
        if type(p) is not Ptr or type(p.o) is not int or type(n) is not int or p.r not in st.regions:
            return
        r = st.regions[p.r]
        if p.o + n > r.size or r.kind in ('const', 'extern', 'opaque', 'folded'):
            return
        if st.nthreads > 1 and not st.in_hook:
            if r.race:
                self.unordered(st, r, 'destruction', p.o, p.o + n)
            if st.sleep:
                self.wake_sleepers(st, p.r, p.o, p.o + n)
        if r.owner is not st.token:
            r = r.copy(st.token)
            st.regions[r.id] = r
        self.clear_range(st, r, p.o, n)
        o, e = p.o, p.o + n
        while o < e:
            k = min(8 - o % 8, e - o)
            r.cells[o] = (k, DEAD)
            o += k

    def generate(self, st, r, o, v):
        """first read of a cell whose initial content the contract generates on demand"""
        th = st.threads[st.cur]
        was = st.in_hook
        st.in_hook = True
        rid = r.id

        def done(eng, s, t, rv):
            s.in_hook = was
            eng.wr(s, rid).cells[o] = (8, rv)
        self.push_call(st, th, v[1], [Ptr(rid, o), v[2]], on_ret=done)
        raise Fork([nothing])

    def load_slow(self, st, r, o, size):
        # assemble from bytes
        parts = []
        i = o
        cells = r.cells
        while i < o + size:
            # find the cell covering byte i
            for d in range(0, 8):
                c = cells.get(i - d)
                if c is not None and c[0] > d:
                    break
            else:
                return UNDEF
            base = i - d
            csz, v = c
            if type(v) is tuple and v:
                if v[0] == 'gen':
                    self.generate(st, r, base, v)
                if v[0] == 'dead':
                    self.read_dead(r, i)
                v = self.lazy(st, r, base, csz, v)
            n = min(base + csz, o + size) - i
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Ptr) and v.r == 0:
                v = v.o
            if isinstance(v, (Ptr, Fn)):
                if n == size == csz:
                    return v
                raise Unsupported('partial load of a pointer')
            if isinstance(v, int):
                x = (v >> (8 * d)) & mask(8 * n)
            else:
                x = z3.Extract(8 * (d + n) - 1, 8 * d, bv(v, csz * 8))
            parts.append((n, x))
            i += n
        if all(isinstance(x, int) for _, x in parts):
            res = 0
            sh = 0
            for n, x in parts:
                res |= x << sh
                sh += 8 * n
            return res
        xs = [bv(x, 8 * n) for n, x in reversed(parts)]
        return norm(z3.Concat(*xs) if len(xs) > 1 else xs[0])

    def store_raw(self, st, r, o, size, v):
        cells = r.cells
        c = cells.get(o)
        if c is not None and c[0] == size:
            cells[o] = (size, v)
            return
        self.clear_range(st, r, o, size)
        cells[o] = (size, v)

    def clear_range(self, st, r, o, size):
        cells = r.cells
        e = o + size
        # overlapping cells starting before o
        for d in range(1, 8):
            c = cells.get(o - d)
            if c is not None and c[0] > d:
                self.split(st, r, o - d, o, e)
        if size > 64 and len(cells) < size:
            keys = [k for k in cells if o <= k < e]
        else:
            keys = [k for k in range(o, e) if k in cells]
        for k in keys:
            c = cells[k]
            if k + c[0] > e:
                self.split(st, r, k, o, e)
            else:
                del cells[k]

    def split(self, st, r, base, o, e):
        csz, v = r.cells.pop(base)
        if type(v) is tuple and v and v[0] == 'lazy':
            v = self.const(st, v[2], v[1])
        for k in range(csz):
            b = base + k
            if o <= b < e:
                continue
            if v is DEAD:
                x = DEAD
            elif v is UNDEF or isinstance(v, (Ptr, Fn)) and not (isinstance(v, Ptr) and v.r == 0):
                x = UNDEF
            elif isinstance(v, Ptr):
                x = (v.o >> (8 * k)) & 255
            elif isinstance(v, int):
                x = (v >> (8 * k)) & 255
            else:
                x = norm(z3.Extract(8 * k + 7, 8 * k, bv(v, csz * 8)))
            r.cells[b] = (1, x)

    def load(self, st, ty, p, atomic=False):
        t = self.m.resolve(ty)
        k = t[0]
        if k == 'struct':
            return tuple(self.load(st, f, self.padd(p, o)) for f, o in zip(t[1], self.m.field_offsets(t)))
        if k == 'arr':
            es = self.m.sizeof(t[2])
            return tuple(self.load(st, t[2], self.padd(p, i * es)) for i in range(t[1]))
        size = self.m.size_align(ty)[0]
        r, o = self.access(st, p, size, False, atomic)
        v = self.load_raw(st, r, o, size)
        if k == 'ptr':
            if type(v) is int:
                return NULL if v == 0 else Ptr(0, v)
        elif k == 'i':
            w = t[1]
            if type(v) is int:
                if w < 8 * size:
                    v &= mask(w)
            elif isinstance(v, Ptr) and v.r == 0:
                return v.o
            elif w == 1 and v is not UNDEF:
                v = self.trunc1(v)
        return v

    def trunc1(self, v):
        if isinstance(v, int):
            return v & 1
        if isinstance(v, BI):
            return v.b
        if z3.is_bool(v):
            return v
        return norm(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))

    def store(self, st, ty, v, p, atomic=False):
        t = self.m.resolve(ty)
        k = t[0]
        if k == 'struct':
            if v is UNDEF:
                return
            for f, o, x in zip(t[1], self.m.field_offsets(t), v):
                self.store(st, f, x, self.padd(p, o))
            return
        if k == 'arr':
            es = self.m.sizeof(t[2])
            for i, x in enumerate(v):
                self.store(st, t[2], x, self.padd(p, i * es))
            return
        size = self.m.size_align(ty)[0]
        r, o = self.access(st, p, size, True, atomic)
        if r.owner is not st.token:
            r = r.copy(st.token)
            st.regions[r.id] = r
        if k == 'i' and t[1] == 1 and not isinstance(v, (int, Undef)):
            v = BI(v)
        self.store_raw(st, r, o, size, v)

    def padd(self, p, n):
        if isinstance(p, Ptr):
            if isinstance(n, int) and isinstance(p.o, int):
                return Ptr(p.r, (p.o + n) & mask(64))
            return Ptr(p.r, norm(bv(p.o, 64) + bv(n, 64)))
        if isinstance(p, Fn) and n == 0:
            return p
        if p is UNDEF:
            return UNDEF
        if isinstance(p, int):
            return Ptr(0, (p + n) & mask(64))
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        rs, so = self.access(st, s, n, False)
        if st.nthreads > 1:
            for k in [k for k in rs.cells if so <= k < so + n]:
                self.race(st, rs, k, rs.cells[k][0], False, False)
                rs = st.regions[rs.id]
        rs = st.regions[rs.id]
        src = rs.cells
        items = []
        for k, c in src.items():
            if type(c[1]) is tuple and c[1] and c[1][0] == 'gen' and k < so + n and k + c[0] > so:
                self.generate(st, rs, k, c[1])
        # cells fully inside
        for k, c in src.items():
            if c[1] is DEAD:
                continue
            if k >= so and k + c[0] <= so + n:
                items.append((k - so, c))
            elif k < so + n and k + c[0] > so:
                # partial: bytes
                csz, v = c
                if isinstance(v, Ptr) and v.r == 0:
                    v = v.o
                if type(v) is tuple and v and v[0] == 'lazy':
                    raise Unsupported('partial copy of an address')
                if isinstance(v, (Ptr, Fn)):
                    raise Unsupported('partial copy of a pointer')
                for j in range(csz):
                    b = k + j
                    if so <= b < so + n:
                        if v is UNDEF:
                            continue
                        x = (v >> (8 * j)) & 255 if isinstance(v, int) else norm(z3.Extract(8 * j + 7, 8 * j, bv(v, csz * 8)))
                        items.append((b - so, (1, x)))
        rd, do = self.access(st, d, n, True)
        if rd.owner is not st.token:
            rd = rd.copy(st.token)
            st.regions[rd.id] = rd
        self.clear_range(st, rd, do, n)
        for k, (sz, v) in items:
            if type(v) is tuple and v and v[0] == 'lazy':
                v = self.const(st, v[2], v[1])
            rd.cells[do + k] = (sz, v)
            if st.nthreads > 1:
                self.race(st, rd, do + k, sz, True, False)
                rd = st.regions[rd.id]

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        rd, do = self.access(st, d, n, True)
        if rd.owner is not st.token:
            rd = rd.copy(st.token)
            st.regions[rd.id] = rd
        self.clear_range(st, rd, do, n)
        if v == 0:
            self.zero(rd, do, n)
        else:
            for i in range(n):
                rd.cells[do + i] = (1, v)

    def free(self, st, p, kinds=('heap',)):
        if isinstance(p, Ptr) and p.r == 0 and p.o == 0:
            return
        if not isinstance(p, Ptr):
            raise Fail('memory-safety', 'mem', 'free of a non-pointer')
        r = st.regions.get(p.r)
        if r is None:
            k = self.rinfo.get(p.r)
            raise Fail('memory-safety', 'mem', 'double free of %s object %s' % (k[0], k[1]) if k else 'free of a non-pointer')
        if r.kind not in kinds or p.o != 0:
            raise Fail('memory-safety', 'mem', 'free of a %s object (offset %s)' % (r.kind, p.o))
        if st.nthreads > 1 and r.race:
            self.unordered(st, r, 'deallocation', 0, r.size)
        for key in [k for k in st.sync if k[0] == p.r]:
            del st.sync[key]
        for key in [k for k in st.mutex if k[0] == p.r]:
            raise Fail('mutex', 'mem', 'a locked mutex is destroyed')
        for key in [k for k in st.cvw if k[0] == p.r]:
            if st.cvw[key]:
                raise Fail('condition-variable', 'mem', 'a condition variable is destroyed while a thread waits on it')
            del st.cvw[key]
        if st.sleep:
            self.wake_sleepers(st, p.r)
        del st.regions[p.r]

    def unordered(self, st, r, what, a, b):
        """the end of the lifetime of bytes [a, b) must be ordered after every access of another thread"""
        t = st.threads[st.cur]
        for o, (wt, wc, rd, ad) in r.race.items():
            if not a <= (o if o >= 0 else -1 - o) < b:
                continue
            bad = wt is not None and wt != t.tid and t.clock.get(wt, 0) < wc
            for x in (rd, ad):
                for rt, rc in x.items():
                    if rt != t.tid and t.clock.get(rt, 0) < rc:
                        bad = True
            if bad:
                raise Fail('data-race', 'race', '%s of %s is not ordered after an access at offset %d by another thread' % (what, r.name or r.kind, o))

    def wake_sleepers(self, st, rid, off=None, end=None):
        """the end of an object's lifetime conflicts with every pending operation on it"""
        hit = lambda op: any(k[0] == rid and (off is None or (k[1] == off if end is None else type(k[1]) is not int or off <= k[1] < end)) for k in op[0])
        if any(hit(op) for op in st.sleep.values()):
            st.sleep = {j: op for j, op in st.sleep.items() if not hit(op)}

    def sync_touch(self, st, th, rid, o):
        """records an operation on a mutex or condition variable: it must happen before the object's lifetime ends"""
        if st.nthreads == 1 or st.in_hook:
            return
        r = self.wr(st, rid)
        if r.race is None:
            r.race = {}
        k = -1 - o
        e = r.race.get(k)
        rd = dict(e[2]) if e else {}
        rd[th.tid] = th.clock[th.tid]
        r.race[k] = (None, 0, rd, {})

    # ------------------------------------------------------------------ constants
    def const(self, st, ty, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1][1:])
        if k == 'undef':
            t = self.m.resolve(ty)
            if t[0] == 'struct':
                return tuple(UNDEF for _ in t[1])
            return UNDEF
        if k == 'zero':
            t = self.m.resolve(ty)
            if t[0] == 'struct':
                return tuple(self.const(st, f, v) for f in t[1])
            if t[0] == 'arr':
                return tuple(self.const(st, t[2], v) for _ in range(t[1]))
            if t[0] == 'ptr':
                return NULL
            return 0
        if k == 'agg':
            return tuple(self.const(st, a, b) for a, b in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(st, PTR, v[3])
                return self.gep(st, v[2], base, [(t, self.const(st, t, x)) for t, x in v[4]])
            if v[1] == 'cast':
                return self.cast(st, v[2], v[3], self.const(st, v[3], v[4]), v[5])
            if v[1] == 'bin':
                return self.binop(st, v[2], v[3], self.const(st, v[3], v[4]), self.const(st, v[3], v[5]))
        if k == 'f':
            return ('float', v[1])
        raise Unsupported('constant %r' % (v,))

    def gep(self, st, sty, base, idxs):
        off = 0
        ty = sty
        first = True
        for t, i in idxs:
            if first:
                sz = self.m.sizeof(ty)
                first = False
            else:
                rt = self.m.resolve(ty)
                if rt[0] == 'struct':
                    off = self.oadd(off, self.m.field_offsets(rt)[i], 1, 64)
                    ty = rt[1][i]
                    continue
                elif rt[0] in ('arr', 'vec'):
                    ty = rt[2]
                    sz = self.m.sizeof(ty)
                else:
                    raise Unsupported('gep into %r' % (rt,))
            off = self.oadd(off, i, sz, t[1])
        return self.padd(base, off)

    def oadd(self, off, i, sz, w):
        if isinstance(i, int):
            if w < 64 or w == 64:
                i = sgn(i, w) if w > 1 else i
            if isinstance(off, int):
                return off + i * sz
            return norm(off + z3.BitVecVal(i * sz, 64))
        if isinstance(i, Undef):
            raise Fail('memory-safety', 'mem', 'indeterminate array index')
        if w < 64:
            i = z3.SignExt(64 - w, bv(i, w))
        return norm(bv(off & mask(64) if isinstance(off, int) else off, 64) + bv(i, 64) * sz)

    def cast(self, st, op, fty, v, tty):
        if op == 'bitcast' or op == 'addrspacecast':
            return v
        if v is UNDEF:
            return UNDEF
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.r == 0:
                return v.o
            return v
        if op == 'inttoptr':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(0, v)
            return v
        fw, tw = fty[1], tty[1]
        if op == 'trunc':
            if isinstance(v, int):
                return v & mask(tw)
            if tw == 1:
                return self.trunc1(v)
            if isinstance(v, BI):
                return v
            if isinstance(v, Ptr):
                raise Unsupported('trunc of a pointer')
            return norm(z3.Extract(tw - 1, 0, v))
        if op == 'zext':
            if isinstance(v, int):
                return v
            if fw == 1:
                return BI(v)
            if isinstance(v, BI):
                return v
            return norm(z3.ZeroExt(tw - fw, v))
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, fw) & mask(tw)
            if fw == 1:
                return norm(z3.If(v, z3.BitVecVal(mask(tw), tw), z3.BitVecVal(0, tw)))
            return norm(z3.SignExt(tw - fw, bv(v, fw)))
        raise Unsupported('cast ' + op)

    def binop(self, st, op, ty, a, b):
        w = ty[1]
        if type(a) is int and type(b) is int:
            m = mask(w)
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> b) & m
            if b == 0:
                raise Fail('arithmetic', 'mem', 'division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q & m if op == 'sdiv' else (x - q * y) & m
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    if type(a.o) is int and type(b.o) is int:
                        return (a.o - b.o) & mask(64)
                    return norm(bv(a.o, 64) - bv(b.o, 64))
                raise Fail('memory-safety', 'mem', 'subtraction of pointers into different objects')
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return self.padd(a, b if not isinstance(b, int) else sgn(b, 64))
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return self.padd(b, a if not isinstance(a, int) else sgn(a, 64))
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
                return self.padd(a, -sgn(b, 64))
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < ALIGN and isinstance(a.o, int):
                return a.o & b
            raise Unsupported('integer arithmetic on pointers (%s)' % op)
        if isinstance(a, Fn) or isinstance(b, Fn):
            if op == 'and' and isinstance(b, int) and b < ALIGN:
                return 0
            raise Unsupported('arithmetic on a function pointer')
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            if op == 'and':
                return norm(z3.And(x, y))
            if op == 'or':
                return norm(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return norm(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        if isinstance(a, BI) and type(b) is int and op in ('and', 'or', 'xor') and b <= 1:
            if op == 'and':
                return a if b else 0
            if op == 'or':
                return 1 if b else a
            return BI(z3.Not(a.b)) if b else a
        if isinstance(a, BI) and isinstance(b, BI) and op in ('and', 'or', 'xor'):
            return BI({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a.b, b.b))
        x, y = bv(a, w), bv(b, w)
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y,
             'srem': lambda: z3.SRem(x, y)}[op]
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not (type(b) is int and b != 0):
            self.oblige(st, norm(y != 0), 'arithmetic: division by zero')
        return norm(f())

    def tobool(self, v):
        if isinstance(v, int):
            return z3.BoolVal(bool(v & 1))
        if isinstance(v, BI):
            return v.b
        return v

    def icmp(self, st, pred, ty, a, b):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                w = ty[1]
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            if p == 'lt':
                return int(a < b)
            if p == 'le':
                return int(a <= b)
            if p == 'gt':
                return int(a > b)
            return int(a >= b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ta is Ptr or tb is Ptr or ta is Fn or tb is Fn:
            if ta is int:
                a = Ptr(0, a)
            if tb is int:
                b = Ptr(0, b)
            if pred in ('eq', 'ne'):
                if type(a) is Ptr and type(b) is Ptr:
                    if a.r != b.r:
                        e = 0
                    elif type(a.o) is int and type(b.o) is int:
                        e = int(a.o == b.o)
                    else:
                        e = norm(bv(a.o, 64) == bv(b.o, 64))
                else:
                    e = int(a == b)
                if pred == 'ne':
                    return 1 - e if type(e) is int else norm(z3.Not(e))
                return e
            if type(a) is Ptr and type(b) is Ptr and a.r == b.r:
                return self.icmp(st, pred, ('i', 64), a.o, b.o)
            raise Unsupported('ordering of unrelated pointers')
        w = ty[1] if ty[0] == 'i' else 64
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return norm(x == y)
            if pred == 'ne':
                return norm(x != y)
            a, b = BI(x), BI(y)
        if isinstance(a, BI) and tb is int and pred in ('eq', 'ne'):
            if b > 1:
                return int(pred == 'ne')
            return a.b if (b == 1) == (pred == 'eq') else norm(z3.Not(a.b))
        x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return norm(r)

    # ------------------------------------------------------------------ solver
    def sat(self, st, extra=None):
        """is pc (and extra) satisfiable?"""
        if extra is None and not st.pc:
            return True
        t0 = time.time()
        s = self.solver
        s.push()
        try:
            for c in st.pc:
                s.add(c)
            if extra is not None:
                s.add(extra)
            r = s.check()
        finally:
            s.pop()
        self.stats['solver_calls'] += 1
        self.stats['solver_time'] += time.time() - t0
        if r == z3.unknown:
            raise Unsupported('solver gave up')
        if r == z3.unsat:
            self.stats['unsat'] = self.stats.get('unsat', 0) + 1
            if self.cvc5 is not None and extra is not None:
                self.cvc5.recheck(st.pc, extra, 'unsat query')
        return r == z3.sat

    def model(self, st, extra=None):
        s = self.solver
        s.push()
        try:
            for c in st.pc:
                s.add(c)
            if extra is not None:
                s.add(extra)
            if s.check() != z3.sat:
                return None
            return s.model()
        finally:
            s.pop()

    def concretize(self, st, v, w):
        """fork over the feasible values of v (at most 40)"""
        if isinstance(v, int):
            return v
        vals = []
        s = self.solver
        s.push()
        try:
            for c in st.pc:
                s.add(c)
            e = bv(v, w)
            while s.check() == z3.sat:
                x = s.model().eval(e, model_completion=True).as_long()
                vals.append(x)
                s.add(e != x)
                if len(vals) > 40:
                    raise Unsupported('too many values for a concretised term')
        finally:
            s.pop()
        if not vals:
            raise Prune('infeasible')
        if len(vals) == 1:
            return vals[0]
        raise Fork([(lambda s2, x=x: s2.pc.append(bv(v, w) == x)) for x in vals])

    def decide(self, st, c, what='branch'):
        """returns True/False for a symbolic or concrete condition, forking if both are feasible"""
        if type(c) is int:
            return bool(c & 1)
        if c is UNDEF:
            raise Fail('memory-safety', 'mem', 'control flow depends on an indeterminate value')
        if isinstance(c, BI):
            c = c.b
        t = self.sat(st, c)
        f = self.sat(st, z3.Not(c))
        if t and f:
            raise Fork([lambda s2: s2.pc.append(c), lambda s2: s2.pc.append(z3.Not(c))])
        if not t and not f:
            raise Prune('infeasible')
        st.pc.append(c if t else z3.Not(c))
        return t

    def oblige(self, st, c, name, kind='assert', msg='does not hold'):
        o = self.obl.setdefault(name, [0, 0])
        if type(c) is int:
            if c & 1:
                o[1 if st.pc else 0] += 1
                return
            raise Fail(name, kind, msg)
        if c is UNDEF:
            raise Fail(name, kind, 'depends on an indeterminate value')
        if isinstance(c, BI):
            c = c.b
        n = z3.Not(c)
        if self.sat(st, n):
            m = self.model(st, n)
            st.pc.append(n)
            raise Fail(name, kind, msg, m)
        o[1] += 1
        st.pc.append(c)

    # ------------------------------------------------------------------ functions
    def decode(self, name):
        d = self.dec.get(name)
        if d is not None:
            return d
        f = self.m.funcs.get(name)
        if f is None:
            return None
        f.parse()
        d = Decoded()
        d.fn = f
        d.blocks = f.blocks
        d.entry = f.entry
        d.loops = f.find_loops()
        d.params = f.params
        d.refcount = ('__gnu_cxx' in name or '9__gnu_cxx' in name or '_Sp_counted' in name or '__exception_ptr' in name)
        self.dec[name] = d
        return d

    def push_call(self, st, th, name, args, dst=None, norm_lbl=None, unw=None, on_ret=None, retty=VOID):
        d = self.decode(name)
        self.funcs_run.add(name)
        if len(th.frames) > 400:
            raise Unsupported('call depth')
        f = Frame()
        f.fn = d.fn
        f.code = d
        f.blk = d.entry
        f.ip = 0
        f.prev = None
        f.regs = regs = {}
        f.allocas = []
        f.dst = dst
        f.norm = norm_lbl
        f.unw = unw
        f.on_ret = on_ret
        f.retty = retty
        f.uid = self.nuid
        f.visits = None
        self.nuid += 1
        if len(args) < len(d.params):
            raise Unsupported('call of %s with %d arguments' % (name, len(args)))
        for (pn, pty, byval), a in zip(d.params, args):
            if byval is not None:
                sz = self.m.sizeof(byval)
                r = self.new_region(st, 'stack', sz, pn)
                f.allocas.append(r.id)
                self.memcpy(st, Ptr(r.id, 0), a, sz)
                a = Ptr(r.id, 0)
            regs[pn] = a
        th.frames.append(f)
        if d.loops and d.entry in d.loops:
            raise Unsupported('loop at function entry')

    def pop_frame(self, st, th):
        f = th.frames.pop()
        regions = st.regions
        for rid in f.allocas:
            r = regions.pop(rid, None)
            if r is not None and st.nthreads > 1:
                self.stack_end(st, r)
                if st.sleep:
                    self.wake_sleepers(st, rid)
        return f

    def stack_end(self, st, r):
        t = st.threads[st.cur]
        if r.race:
            for o, (wt, wc, rd, ad) in r.race.items():
                bad = wt is not None and wt != t.tid and t.clock.get(wt, 0) < wc
                for x in (rd, ad):
                    for rt, rc in x.items():
                        if rt != t.tid and t.clock.get(rt, 0) < rc:
                            bad = True
                if bad:
                    raise Fail('data-race', 'race', 'local object %s goes out of scope while another thread may still access it (offset %d)' % (r.name, o))
        for key in [k for k in st.mutex if k[0] == r.id]:
            raise Fail('mutex', 'mem', 'a locked mutex (%s) is destroyed' % r.name)
        for key in [k for k in st.sync if k[0] == r.id]:
            del st.sync[key]

    def lifetime(self, st, th, p, start):
        """a local object enters or leaves its scope"""
        if type(p) is not Ptr or p.o != 0:
            return
        r = st.regions.get(p.r)
        if r is None or r.kind != 'stack':
            return
        if start:
            if r.full is None and not r.cells and not r.race:
                return
            r = self.wr(st, p.r)
            if r.full is not None:
                r.size = r.full
                r.full = None
            r.cells = {}
            r.race = None
            return
        if r.full is not None:
            return
        if st.nthreads > 1:
            self.stack_end(st, r)
            if st.sleep:
                self.wake_sleepers(st, p.r)
        r = self.wr(st, p.r)
        r.full = r.size
        r.size = 0
        r.cells = {}
        r.race = None

    # ------------------------------------------------------------------ exceptions
    def type_matches(self, st, thrown, want):
        """thrown, want: typeinfo global names"""
        if thrown == want:
            return True
        for b in self.bases(st, thrown):
            if self.type_matches(st, b, want):
                return True
        return False

    def bases(self, st, ti):
        if ti in EXT_BASES:
            return EXT_BASES[ti]
        g = self.m.globals.get(ti)
        if g is None or g[1] is None:
            return []
        init = g[1]
        if init[0] != 'agg':
            return []
        out = []
        vt = init[1][0][1]
        vs = repr(vt)
        if '__si_class_type_info' in vs:
            v = init[1][2][1]
            if v[0] == 'g':
                out.append(v[1][1:])
        elif '__vmi_class_type_info' in vs:
            for t, v in init[1][4:]:
                if v[0] == 'g':
                    out.append(v[1][1:])
        return out

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def throw(self, st, th, rid):
        """unwind with exception object rid"""
        e = st.exc[rid]
        # phase 1: is there a handler?
        # (clang emits explicit terminate handlers for noexcept functions, so plain unwinding is enough)
        while th.frames:
            f = th.frames[-1]
            if f.on_ret is not None and getattr(f.on_ret, 'noexc', False):
                raise Fail('terminate', 'terminate', 'an exception escapes from %s during cleanup' % f.fn.name)
            unw = f.unw
            f = self.pop_frame(st, th)
            if not th.frames:
                break
            caller = th.frames[-1]
            if unw is not None:
                lp = None
                for ins in caller.code.blocks[unw]:
                    if ins.op == 'landingpad':
                        lp = ins
                        break
                if lp is None:
                    raise Unsupported('no landingpad')
                cleanup, clauses = lp.a
                sel = None
                for kind, v in clauses:
                    if kind == 'catch':
                        if v[0] == 'null':
                            sel = self.typeid('null')
                            break
                        nm = v[1][1:]
                        if self.type_matches(st, e['ti'], nm):
                            sel = self.typeid(nm)
                            break
                    else:
                        raise Unsupported('exception filter')
                if sel is None and cleanup:
                    sel = 0
                if sel is not None:
                    caller.prev = caller.blk
                    caller.blk = unw
                    caller.ip = 0
                    caller.regs['$lp'] = (Ptr(rid, 0), sel)
                    return
        raise Fail('terminate', 'terminate', 'an exception (%s) leaves the thread function' % e['ti'])

    # ------------------------------------------------------------------ threads
    def tick(self, th):
        th.clock[th.tid] += 1

    def runnable(self, st):
        return [i for i, t in enumerate(st.threads) if t.status == 'run']

    def opmark(self, th, f):
        """identifies one dynamic execution of the current instruction"""
        return (th.tid, f.uid, f.blk, f.ip, tuple(f.visits.items()) if f.visits else None)

    def sched_point(self, st, th, f, op):
        """A visible operation `op` = (('keys',..), kind) of thread th is about to execute.  Returns when the scheduler has
        granted it; otherwise switches thread (raises Fork).  Threads run their local code eagerly, so decisions are made
        only when every runnable thread is about to execute a visible operation; sleep sets prune equivalent schedules."""
        if st.nthreads == 1 or st.in_hook:
            return
        mark = self.opmark(th, f)
        if th.smark == mark:
            return
        th.at = mark
        th.nextop = op
        self.schedule(st)
        raise Fork([nothing])

    def enabled(self, st, t):
        keys, kind = t.nextop
        if kind == 'lock':
            own = st.mutex.get(keys[0])
            return own is None or own == t.tid
        if kind == 'join':
            return st.threads[keys[0][1]].status == 'done'
        return True

    def schedule(self, st):
        """choose the thread to run next: an unstable one if any, else decide among the enabled ones (Fork)"""
        ths = st.threads
        stable = []
        for i, t in enumerate(ths):
            if t.status == 'run':
                if t.at is None:
                    st.cur = i
                    return True
                stable.append(i)
        en = [i for i in stable if self.enabled(st, ths[i])]
        if not en:
            tw = [i for i, t in enumerate(ths) if t.status == 'parked' and t.key and t.key[0] == 'timed']
            if tw:
                return self.wake_timed(st, tw)
            blocked = [t for t in ths if t.status != 'done' and not t.daemon]
            if blocked:
                raise Fail('deadlock', 'deadlock', 'no thread can run: %s' % '; '.join(
                    'thread %d blocked on %s in %s' % (t.tid, t.key[0] if t.key else t.nextop[1] if t.nextop else '?', self.where(t)) for t in blocked))
            return False
        if len(en) == 1:
            i = en[0]
            t = ths[i]
            if i in st.sleep:
                self.stats['asleep'] += 1
                raise Prune('sleep')
            if st.sleep:
                st.sleep = {j: o for j, o in st.sleep.items() if indep(o, t.nextop)}
            t.smark = t.at
            t.at = None
            t.grants += 1
            st.cur = i
            return True
        self.stats['sched'] += 1
        lim = st.opts.get('preemptions')
        sl = st.sleep
        cand = [i for i in en if i not in sl]
        if lim is not None:
            sl = {}
            cand = en
            if st.npre >= lim and st.lastgrant in en:
                cand = [st.lastgrant]
                k = 'preemption bound %d' % lim
                self.bounded[k] = self.bounded.get(k, 0) + 1
        if not cand:
            self.stats['asleep'] += 1
            raise Prune('sleep')
        # continue the thread that ran last first
        if st.lastgrant in cand:
            cand.remove(st.lastgrant)
            cand.insert(0, st.lastgrant)
        vs = []
        acc = dict(sl)
        last = st.lastgrant
        for i in cand:
            op = ths[i].nextop
            ns = {j: o for j, o in acc.items() if j != i and indep(o, op)} if lim is None else {}

            def go(s, i=i, ns=ns):
                s.trace.append(('sched', i))
                s.sleep = ns
                t = s.threads[i]
                t.smark = t.at
                t.at = None
                t.grants += 1
                if last is not None and last != i and last in en:
                    s.npre += 1
                s.lastgrant = i
                s.cur = i
            vs.append(go)
            acc[i] = op
        raise Fork(vs)

    def pick_next(self, st):
        """current thread blocked or finished: choose the next one"""
        return self.schedule(st)

    def wake_timed(self, st, tw):
        i = tw[0]
        t = st.threads[i]
        t.status = 'run'
        t.key = ('timeout', t.key[1], t.key[2])
        for k in st.cvw:
            if t.tid in st.cvw[k]:
                st.cvw[k].remove(t.tid)
        st.cur = i
        return True

    def where(self, t):
        return ' < '.join(demangle_short(f.fn.name) for f in reversed(t.frames[-4:]))

    # ------------------------------------------------------------------ main loop
    def run_unit(self, name, deadline=None):
        """explores all paths of unit function `name`"""
        self.deadline = deadline
        st = State()
        st.opts.update(self.opts)
        th = Thread(0)
        st.threads.append(th)
        self.push_call(st, th, name, [])
        th.final = True
        work = [st]
        while work:
            st = work.pop()
            r = self.run_path(st, work)
            if self.failures and len(self.failures) >= self.max_fail:
                return
            if deadline and time.time() > deadline:
                self.bounded['time limit'] = self.bounded.get('time limit', 0) + 1
                return

    def run_path(self, st, work):
        while True:
            try:
                self.exec(st)
                self.end_path(st)
                self.stats['paths'] += 1
                return
            except Fork as f:
                self.stats['forks'] += 1
                vs = f.variants
                states = [st] if len(vs) == 1 else None
                if states is None:
                    states = [st.clone() for _ in vs[1:]]
                    states.insert(0, st)
                for s, v in zip(states, vs):
                    v(s)
                work.extend(reversed(states[1:]))
                if self.deadline and time.time() > self.deadline:
                    return
                continue
            except Prune as p:
                self.stats['pruned'] += 1
                return
            except Fail as f:
                self.record_failure(st, f)
                self.stats['paths'] += 1
                return

    def record_failure(self, st, f):
        loc = ''
        if st.threads and st.threads[st.cur].frames:
            loc = self.where(st.threads[st.cur])
        m = f.extra
        try:
            if m is None:
                m = self.model(st)
        except Exception:
            m = None
        trace = []
        for t in st.trace:
            if t[0] == 'sym':
                v = 0
                if m is not None:
                    v = m.eval(t[1], model_completion=True).as_long()
                trace.append(['sym', v])
            else:
                trace.append(list(t))
        k = f.name
        if any(x['name'] == k and x['msg'] == f.msg for x in self.failures):
            return
        self.failures.append(dict(name=k, kind=f.kind, msg=f.msg, where=loc, trace=trace, replayable=st.replayable,
                                  stack=[[x.fn.name + ':' + repr(x.code.blocks[x.blk][min(max(x.ip - 1, 0), len(x.code.blocks[x.blk]) - 1)]) for x in reversed(t.frames)][:12] for t in st.threads]))

    def end_path(self, st):
        if st.opts.get('leaks_ok'):
            return
        o = self.obl.setdefault('no-leak', [0, 0])
        for rid, r in st.regions.items():
            if r.kind == 'heap':
                raise Fail('no-leak', 'leak', 'memory allocated by %s is never freed' % r.name)
            if r.kind == 'exc':
                raise Fail('no-leak', 'leak', 'an exception object is never released')
        o[0] += 1

    def exec(self, st):
        """run until the unit finishes (returns) or an exception (Fork, Prune, Fail) is raised"""
        m = self.m
        stats = self.stats
        threads = st.threads
        n0 = 0
        while True:
            th = threads[st.cur]
            if th.status != 'run':
                if not self.pick_next(st):
                    return
                continue
            if not th.frames:
                # thread finished
                th.status = 'done'
                if th.final:
                    # the unit function returned
                    return
                self.thread_done(st, th)
                if not self.pick_next(st):
                    return
                continue
            f = th.frames[-1]
            blk = f.code.blocks[f.blk]
            cur = st.cur
            nfr = len(th.frames)
            # execute straight-line code in this frame
            while True:
                ins = blk[f.ip]
                stats['instrs'] += 1
                n0 += 1
                op = ins.op
                regs = f.regs
                if op == 'load':
                    ty, p = ins.a
                    if p[0] == 'r':
                        p = regs[p[1]]
                    else:
                        p = self.const(st, PTR, p)
                    if ' atomic ' in ins.line:
                        self.atomic_load(st, th, f, ins, ty, p)
                    else:
                        regs[ins.dst] = self.load(st, ty, p)
                    f.ip += 1
                elif op == 'store':
                    ty, v, p = ins.a
                    v = regs[v[1]] if v[0] == 'r' else self.const(st, ty, v)
                    p = regs[p[1]] if p[0] == 'r' else self.const(st, PTR, p)
                    if ' atomic ' in ins.line:
                        self.atomic_store(st, th, f, ins, ty, v, p)
                        f.ip += 1
                        if len(th.frames) != nfr:
                            break
                        continue
                    else:
                        self.store(st, ty, v, p)
                    f.ip += 1
                elif op == 'gep':
                    sty, b, idxs = ins.a
                    b = regs[b[1]] if b[0] == 'r' else self.const(st, PTR, b)
                    regs[ins.dst] = self.gep(st, sty, b, [(t, regs[x[1]] if x[0] == 'r' else self.const(st, t, x)) for t, x in idxs])
                    f.ip += 1
                elif op == 'alloca':
                    ty, n = ins.a
                    n = regs[n[1]] if n[0] == 'r' else self.const(st, ('i', 64), n)
                    if not isinstance(n, int):
                        raise Unsupported('variable alloca')
                    r = self.new_region(st, 'stack', m.sizeof(ty) * n, f.fn.name[-30:] + ins.dst)
                    self.ralign[r.id] = ins
                    f.allocas.append(r.id)
                    regs[ins.dst] = Ptr(r.id, 0)
                    f.ip += 1
                elif op == 'call' or op == 'invoke':
                    if self.do_call(st, th, f, ins):
                        break
                elif op == 'jmp':
                    self.goto(st, th, f, ins.a[0])
                    blk = f.code.blocks[f.blk]
                elif op == 'br':
                    c, a, b = ins.a
                    c = regs[c[1]] if c[0] == 'r' else self.const(st, ('i', 1), c)
                    self.goto(st, th, f, a if (c & 1 if type(c) is int else self.decide(st, c)) else b)
                    blk = f.code.blocks[f.blk]
                elif op == 'icmp':
                    pred, ty, a, b = ins.a
                    a = regs[a[1]] if a[0] == 'r' else self.const(st, ty, a)
                    b = regs[b[1]] if b[0] == 'r' else self.const(st, ty, b)
                    regs[ins.dst] = self.icmp(st, pred, ty, a, b)
                    f.ip += 1
                elif op == 'bin':
                    bop, ty, a, b = ins.a
                    a = regs[a[1]] if a[0] == 'r' else self.const(st, ty, a)
                    b = regs[b[1]] if b[0] == 'r' else self.const(st, ty, b)
                    regs[ins.dst] = self.binop(st, bop, ty, a, b)
                    f.ip += 1
                elif op == 'cast':
                    cop, fty, v, tty = ins.a
                    v = regs[v[1]] if v[0] == 'r' else self.const(st, fty, v)
                    regs[ins.dst] = self.cast(st, cop, fty, v, tty)
                    f.ip += 1
                elif op == 'ret':
                    ty, v = ins.a
                    rv = None
                    if v is not None:
                        rv = regs[v[1]] if v[0] == 'r' else self.const(st, ty, v)
                    self.do_ret(st, th, rv)
                    break
                elif op == 'phi':
                    ty, inc = ins.a
                    # all phis of a block read the old values
                    vals = []
                    while True:
                        ins = blk[f.ip]
                        if ins.op != 'phi':
                            break
                        ty, inc = ins.a
                        v = inc[f.prev]
                        vals.append((ins.dst, regs[v[1]] if v[0] == 'r' else self.const(st, ty, v)))
                        f.ip += 1
                    for d, v in vals:
                        regs[d] = v
                elif op == 'switch':
                    ty, v, d, cases = ins.a
                    v = regs[v[1]] if v[0] == 'r' else self.const(st, ty, v)
                    if v is UNDEF:
                        raise Fail('memory-safety', 'mem', 'control flow depends on an indeterminate value')
                    if not isinstance(v, int):
                        v = self.concretize(st, v, ty[1])
                    for cv, lbl in cases:
                        if cv == v:
                            d = lbl
                            break
                    self.goto(st, th, f, d)
                    blk = f.code.blocks[f.blk]
                elif op == 'select':
                    c, a, b = ins.a
                    c = regs[c[1]] if c[0] == 'r' else self.const(st, ('i', 1), c)
                    x = a if self.decide(st, c) else b
                    m2 = ins.line
                    regs[ins.dst] = regs[x[1]] if x[0] == 'r' else self.const(st, select_ty(ins), x)
                    f.ip += 1
                elif op == 'extractvalue':
                    v, idx = ins.a
                    v = regs[v[1]] if v[0] == 'r' else self.const(st, None, v)
                    for i in idx:
                        v = v[i] if v is not UNDEF else UNDEF
                    regs[ins.dst] = v
                    f.ip += 1
                elif op == 'insertvalue':
                    ty, v, ety, e, idx = ins.a
                    v = regs[v[1]] if v[0] == 'r' else self.const(st, ty, v)
                    e = regs[e[1]] if e[0] == 'r' else self.const(st, ety, e)
                    regs[ins.dst] = insert(v, idx, e, m, ty)
                    f.ip += 1
                elif op == 'landingpad':
                    regs[ins.dst] = regs['$lp']
                    f.ip += 1
                elif op == 'resume':
                    v = ins.a[0]
                    v = regs[v[1]]
                    rid = v[0].r
                    # continue unwinding from this frame
                    fr = th.frames[-1]
                    self.throw_resume(st, th, rid)
                    break
                elif op == 'cmpxchg':
                    self.cmpxchg(st, th, f, ins)
                    f.ip += 1
                    if len(th.frames) != nfr:
                        break
                elif op == 'atomicrmw':
                    self.atomicrmw(st, th, f, ins)
                    f.ip += 1
                    if len(th.frames) != nfr:
                        break
                elif op == 'nop':
                    self.fence(st, th, ins)
                    f.ip += 1
                elif op == 'unreachable':
                    raise Fail('memory-safety', 'mem', 'unreachable code reached in %s' % f.fn.name)
                elif op == 'freeze':
                    v = ins.a[0]
                    regs[ins.dst] = regs[v[1]] if v[0] == 'r' else self.const(st, None, v)
                    f.ip += 1
                else:
                    raise Unsupported('%s in %s' % (ins.line.strip(), f.fn.name))
            st.steps += n0
            n0 = 0
            if st.steps > 3000000:
                self.bounded['instruction limit'] = 1
                raise Prune('instruction limit')
            if self.deadline and time.time() > self.deadline:
                raise Prune('time limit')

    def goto(self, st, th, f, lbl):
        loops = f.code.loops
        if loops and lbl in loops:
            self.loop_head(st, th, f, lbl)
        f.prev = f.blk
        f.blk = lbl
        f.ip = 0

    def loop_head(self, st, th, f, lbl):
        back = f.blk in f.code.loops[lbl]
        v = f.visits
        if v is None:
            v = f.visits = {}
        if not back:
            v[lbl] = 0
        else:
            v[lbl] = v.get(lbl, 0) + 1
        if self.loopeng is not None:
            if self.loopeng.at_head(self, st, th, f, lbl, back):
                return
        n = v[lbl]
        if n > st.opts.get('unroll', 100000):
            key = 'loop unrolled %d times' % st.opts['unroll']
            self.bounded[key] = self.bounded.get(key, 0) + 1
            raise Prune('unroll')
        if n == 60:
            v[lbl, 'g'] = th.grants
        if n == 100 and th.grants - v[lbl, 'g'] >= 20 and any(t is not th and t.status == 'run' for t in st.threads):
            # a busy-waiting loop: the schedule that lets only this thread run is unfair
            self.bounded['busy-wait loops: schedules with over 100 consecutive fruitless iterations not followed'] = 1
            raise Prune('unroll')
        if n > 4000:
            raise Fail('termination', 'term', 'a loop does not terminate (4000 iterations; %s)' % self.where(th))

    def do_ret(self, st, th, rv):
        f = self.pop_frame(st, th)
        if f.on_ret is not None:
            f.on_ret(self, st, th, rv)
            return
        if not th.frames:
            th.retval = rv
            return
        c = th.frames[-1]
        if f.dst is not None:
            c.regs[f.dst] = rv
        if f.norm is not None:
            self.goto(st, th, c, f.norm)
        else:
            c.ip += 1

    def throw_resume(self, st, th, rid):
        # pops the current frame and unwinds from its call site
        self.throw(st, th, rid)

    def thread_done(self, st, th):
        self.tick(th)
        for t in st.threads:
            if t.status == 'parked' and t.key == ('join', th.tid):
                t.status = 'run'
                t.key = None

    def do_call(self, st, th, f, ins):
        """returns True if control left the current straight-line loop"""
        a = ins.a
        ret, callee, args = a[0], a[1], a[2]
        regs = f.regs
        if callee[0] == 'g':
            name = callee[1][1:]
        else:
            c = regs[callee[1]] if callee[0] == 'r' else self.const(st, PTR, callee)
            if not isinstance(c, Fn):
                if isinstance(c, Ptr) and c.r == 0:
                    raise Fail('memory-safety', 'mem', 'call through a null function pointer')
                raise Fail('memory-safety', 'mem', 'call through a bad function pointer %r' % (c,))
            name = c.name
        if name in self.m.aliases:
            t = self.m.aliases[name]
            if t[0] == 'g':
                name = t[1][1:]
        if name.startswith('llvm.'):
            if name.startswith('llvm.lifetime'):
                self.lifetime(st, th, regs[args[1][1][1]] if args[1][1][0] == 'r' else None, 'start' in name)
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume')):
                if ins.op == 'invoke':
                    self.goto(st, th, f, a[3])
                else:
                    f.ip += 1
                return False
        sub = st.opts.get('subst')
        if sub is not None and name in sub:
            name = sub[name]
            self.substituted.add(callee[1][1:] if callee[0] == 'g' else c.name)
        args = [regs[x[1]] if x[0] == 'r' else self.const(st, t, x) if t[0] != 'meta' else None for t, x in args]
        inv = ins.op == 'invoke'
        b = self.builtin(name)
        if b is not None:
            call = CallCtx(self, st, th, f, ins, name, ret, args, a[3] if inv else None, a[4] if inv else None)
            r = b(call)
            if r is LEFT:
                return True
            if ins.dst is not None:
                regs[ins.dst] = r
            if inv:
                self.goto(st, th, f, a[3])
                return True
            f.ip += 1
            return False
        if name not in self.m.funcs:
            raise Unsupported('external function ' + name)
        self.push_call(st, th, name, args, ins.dst, a[3] if inv else None, a[4] if inv else None, None, ret)
        return True

    def builtin(self, name):
        b = self.builtins.get(name)
        if b is not None:
            return b
        if name in self.m.funcs:
            return None
        if name in self.binames:
            return self.binames[name]
        import builtins_vc
        for pre, fn in builtins_vc.PREFIX:
            if name.startswith(pre):
                self.binames[name] = fn
                return fn
        return None

    # ------------------------------------------------------------------ atomics
    def order_of(self, ins, i=-1):
        ws = [w.strip(',') for w in ins.line.split()]
        os_ = [ORD[w] for w in ws if w in ORD]
        return os_

    def acq(self, st, th, key):
        c = st.sync.get(key)
        if c:
            th.clock = join(th.clock, c)

    def pre_atomic(self, st, th, f, ins, p):
        """scheduling point and environment hook before an atomic access"""
        if not f.code.refcount or st.opts.get('sched_refcount'):
            self.sched_point(st, th, f, (((p.r, p.o),) if isinstance(p, Ptr) else (), 'r' if ins.op == 'load' else 'w'))
        h = st.opts.get('env_hook')
        if h is not None and not st.in_hook and not f.code.refcount:
            mark = self.opmark(th, f)
            if th.emark != mark:
                th.emark = mark
                st.in_hook = True
                self.push_call(st, th, h.name, [p, 1 if ins.op == 'load' else 2 if ins.op == 'store' else 3], on_ret=leave_hook)
                raise Fork([lambda s: None])

    def atomic_load(self, st, th, f, ins, ty, p):
        self.pre_atomic(st, th, f, ins, p)
        f.regs[ins.dst] = self.load(st, ty, p, True)
        if st.nthreads > 1 or st.opts.get('hb'):
            o = self.order_of(ins)[-1]
            for key in ((p.r, p.o),) if not f.code.refcount else ((p.r, p.o), (p.r, p.o + 4)):
                c = st.sync.get(key)
                if c:
                    if o in (2, 4, 5):
                        th.clock = join(th.clock, c)
                    else:
                        th.acqf = join(th.acqf or {}, c)

    def wrote(self, st, th, f, p, old, new):
        """guarantee hook: this thread has changed an atomic object from old to new"""
        h = st.opts.get('guar_hook')
        if h is not None and not st.in_hook and not f.code.refcount:
            st.in_hook = True
            a = [p, old, new]
            for i, (pn, pty, byval) in enumerate(self.decode(h.name).params[:3]):
                if isinstance(a[i], z3.BitVecRef) and i and 8 * self.m.sizeof(pty) > a[i].size():
                    a[i] = z3.ZeroExt(8 * self.m.sizeof(pty) - a[i].size(), a[i])
            self.push_call(st, th, h.name, a, on_ret=leave_hook)

    def atomic_store(self, st, th, f, ins, ty, v, p):
        self.pre_atomic(st, th, f, ins, p)
        if st.opts.get('guar_hook') is not None:
            old = self.load(st, ty, p, True)
            self.store(st, ty, v, p, True)
            self.wrote(st, th, f, p, old, v)
        else:
            self.store(st, ty, v, p, True)
        if st.nthreads > 1:
            o = self.order_of(ins)[-1]
            key = (p.r, p.o)
            if o in (3, 4, 5):
                st.sync[key] = th.clock.copy()
                self.tick(th)
            else:
                st.sync[key] = th.relf

    def rmw_sync(self, st, th, p, o):
        key = (p.r, p.o)
        c = st.sync.get(key)
        if c:
            if o in (2, 4, 5):
                th.clock = join(th.clock, c)
            else:
                th.acqf = join(th.acqf or {}, c)
        if o in (3, 4, 5):
            st.sync[key] = join(th.clock, c)
            self.tick(th)
        elif th.relf:
            st.sync[key] = join(th.relf, c)

    def cmpxchg(self, st, th, f, ins):
        ty, p, cmpv, new, weak = ins.a
        regs = f.regs
        p = regs[p[1]] if p[0] == 'r' else self.const(st, PTR, p)
        self.pre_atomic(st, th, f, ins, p)
        cmpv = regs[cmpv[1]] if cmpv[0] == 'r' else self.const(st, ty, cmpv)
        new = regs[new[1]] if new[0] == 'r' else self.const(st, ty, new)
        old = self.load(st, ty, p, True)
        t = self.m.resolve(ty)
        ok = self.decide(st, self.icmp(st, 'eq', t, old, cmpv))
        if ok and weak and not f.code.refcount and (st.opts.get('weak_pending') is not None or st.opts.setdefault('weak_cas', 1)):
            k = st.opts.get('weak_pending')
            if k is None:
                def good(s):
                    s.opts['weak_pending'] = 1
                    s.trace.append(('weak', 0, 2))

                def bad(s):
                    s.opts['weak_pending'] = 0
                    s.opts['weak_cas'] -= 1
                    s.trace.append(('weak', 1, 2))
                raise Fork([good, bad])
            st.opts['weak_pending'] = None
            ok = bool(k)
        os_ = self.order_of(ins)
        so, fo = os_[-2], os_[-1]
        if ok:
            self.store(st, ty, new, p, True)
            if st.nthreads > 1:
                self.rmw_sync(st, th, p, so)
            self.wrote(st, th, f, p, old, new)
        elif st.nthreads > 1:
            c = st.sync.get((p.r, p.o))
            if c:
                if fo in (2, 4, 5):
                    th.clock = join(th.clock, c)
                else:
                    th.acqf = join(th.acqf or {}, c)
        regs[ins.dst] = (old, int(ok))

    def atomicrmw(self, st, th, f, ins):
        kind, ty, p, v = ins.a
        regs = f.regs
        p = regs[p[1]] if p[0] == 'r' else self.const(st, PTR, p)
        self.pre_atomic(st, th, f, ins, p)
        v = regs[v[1]] if v[0] == 'r' else self.const(st, ty, v)
        old = self.load(st, ty, p, True)
        if kind == 'xchg':
            new = v
        elif kind in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, kind, self.m.resolve(ty), old, v)
        elif kind == 'nand':
            new = self.binop(st, 'xor', self.m.resolve(ty), self.binop(st, 'and', self.m.resolve(ty), old, v), mask(ty[1]))
        elif kind in ('max', 'min', 'umax', 'umin'):
            pred = {'umin': 'ult', 'umax': 'ugt', 'min': 'slt', 'max': 'sgt'}[kind]
            new = old if self.decide(st, self.icmp(st, pred, self.m.resolve(ty), old, v)) else v
        else:
            raise Unsupported('atomicrmw ' + kind)
        self.store(st, ty, new, p, True)
        if st.nthreads > 1:
            self.rmw_sync(st, th, p, self.order_of(ins)[-1])
        self.wrote(st, th, f, p, old, new)
        regs[ins.dst] = old

    def fence(self, st, th, ins):
        if not ins.line.strip().startswith('fence'):
            return
        o = self.order_of(ins)[-1]
        if o in (2, 4, 5) and th.acqf:
            th.clock = join(th.clock, th.acqf)
            th.acqf = None
        if o in (3, 4, 5):
            th.relf = th.clock.copy()
            self.tick(th)


def nothing(s):
    pass


def indep(a, b):
    if a[1] == 'all' or b[1] == 'all':
        return False
    if a[1] == 'r' and b[1] == 'r':
        return True
    return not any(k in b[0] for k in a[0])


def leave_hook(eng, st, th, rv):
    st.in_hook = False


class Left:
    pass


LEFT = Left()


class CallCtx:
    __slots__ = ('e', 'st', 'th', 'f', 'ins', 'name', 'ret', 'args', 'norm', 'unw')

    def __init__(self, e, st, th, f, ins, name, ret, args, norm_, unw):
        self.e = e
        self.st = st
        self.th = th
        self.f = f
        self.ins = ins
        self.name = name
        self.ret = ret
        self.args = args
        self.norm = norm_
        self.unw = unw

    def resume(self, rv=None):
        """complete this call with value rv (used when the builtin finished through a nested call)"""
        ins, f = self.ins, self.th.frames[-1]
        if ins.dst is not None:
            f.regs[ins.dst] = rv
        if self.norm is not None:
            self.e.goto(self.st, self.th, f, self.norm)
        else:
            f.ip += 1

    def throw(self, rid):
        """the call throws: unwind as if from a callee frame of f"""
        e, th = self.e, self.th
        th.uncaught += 1
        f = Frame()
        f.fn = self.f.fn
        f.code = self.f.code
        f.blk = self.f.blk
        f.ip = 0
        f.prev = None
        f.regs = {}
        f.allocas = []
        f.dst = None
        f.norm = None
        f.unw = self.unw
        f.on_ret = None
        f.uid = 0
        f.visits = None
        f.retty = VOID
        th.frames.append(f)
        e.throw(self.st, th, rid)
        return LEFT


def insert(v, idx, e, m, ty):
    t = m.resolve(ty)
    n = len(t[1]) if t[0] == 'struct' else t[1]
    l = list(v) if v is not UNDEF and v is not None else [UNDEF] * n
    if len(idx) == 1:
        l[idx[0]] = e
    else:
        et = t[1][idx[0]] if t[0] == 'struct' else t[2]
        l[idx[0]] = insert(l[idx[0]], idx[1:], e, m, et)
    return tuple(l)


def select_ty(ins):
    import irparse
    p = irparse.P(irparse.tokenize(ins.line))
    while p.next() != 'select':
        pass
    irparse.parse_type(p)
    irparse.parse_value(p, ('i', 1))
    p.expect(',')
    return irparse.parse_type(p)


_dm = {}


def demangle_short(n):
    if n in _dm:
        return _dm[n]
    import subprocess
    try:
        r = subprocess.run(['c++filt', '-p', n], capture_output=True, text=True, timeout=10).stdout.strip()
    except Exception:
        r = n
    r = r.replace('portable_concurrency::cxx14_v1::', '').replace('std::', '')
    if len(r) > 160:
        r = r[:160] + '...'
    _dm[n] = r
    return r
