"""State closure at loop heads: inductive invariants found by the engine itself.

In a thread-modular unit (vc_opt("closure", 1)) interference is havoc under the rely condition, so the states that reach a
loop head repeat up to a renaming of regions and symbols.  At every back edge the state is put in a canonical form; if an
already visited state at the same head covers it (same shape, and its path condition is implied), the path is closed: the
disjunction of the visited states is an inductive invariant of the loop, and every path from it is explored.  Loops are then
proved for any number of iterations; nothing is unrolled to a bound."""
import re
import z3
from irparse import Unsupported
from engine import Ptr, Fn, BI, UNDEF, Prune, bv

REG = re.compile(r'%("[^"]*"|[-a-zA-Z$._0-9]+)')


def regs_of(ins):
    return set(x.strip('"') for x in REG.findall(ins.line))


def live_in(code):
    """live registers at the start of each block (names as used by the engine's register file)"""
    l = getattr(code.fn, '_live', None)
    if l is not None:
        return l
    use = {}
    dfn = {}
    for b, inss in code.blocks.items():
        u, d = set(), set()
        for ins in inss:
            for n in regs_of(ins):
                if n not in d and n != strip(ins.dst):
                    u.add(n)
            if ins.dst is not None:
                d.add(strip(ins.dst))
        use[b], dfn[b] = u, d
    li = {b: set() for b in code.blocks}
    ch = True
    while ch:
        ch = False
        for b in code.blocks:
            o = set()
            for s in code.fn.succs(b):
                o |= li[s]
            n = use[b] | (o - dfn[b])
            if n != li[b]:
                li[b] = n
                ch = True
    code.fn._live = li
    return li


def strip(d):
    if d is None:
        return None
    return (d[1:] if d.startswith('%') else d).strip('"')


def live_at(code, blk, ip):
    li = live_in(code)
    out = set()
    for s in code.fn.succs(blk):
        out |= li[s]
    for ins in reversed(code.blocks[blk][ip:]):
        if ins.dst is not None:
            out.discard(strip(ins.dst))
        out |= set(n for n in regs_of(ins) if n != strip(ins.dst))
    return out


class Closure:
    def __init__(self):
        self.seen = {}
        self.skel = {}   # states up to the values of their 64-bit integers
        self.hits = 0
        self.stored = 0

    def at_head(self, eng, st, th, f, lbl, back):
        if not st.opts.get('closure') or st.in_hook:
            return False
        if st.nthreads > 1:
            raise Unsupported('closure with threads')
        for fr in th.frames:
            if fr.on_ret is not None:
                return False
        key, pc, syms, _ = self.canon(eng, st, th, f, lbl)
        cands = self.covered(eng, key, pc)
        if back and st.opts.get('widen'):
            skey, spc, _, leaves = self.canon(eng, st, th, f, lbl, True)
            old = self.skel.get(skey)
            if old is not None and self.widen(eng, st, old, spc, leaves):
                key, pc, syms, _ = self.canon(eng, st, th, f, lbl)
                cands = self.covered(eng, key, pc)
                skey, spc, _, leaves = self.canon(eng, st, th, f, lbl, True)
            self.skel[skey] = (spc, leaves)
        cands.append((pc, syms))
        self.stored += 1
        eng.stats['invariant_states'] = eng.stats.get('invariant_states', 0) + 1
        return False

    def covered(self, eng, key, pc):
        cands = self.seen.setdefault(key, [])
        for vpc, vsyms in cands:
            if self.implied(eng, pc, vpc, vsyms):
                self.hits += 1
                eng.stats['closed'] = eng.stats.get('closed', 0) + 1
                raise Prune('closed')
        return cands

    def widen(self, eng, st, old, pc, leaves):
        """the state differs from a visited one only in integers: generalise them.  Cells that hold the same value get
        the same fresh symbol; order relations to other symbolic cells that hold in both states are kept.  The generalised
        state covers the current one, so exploring it instead is sound."""
        vpc, vleaves = old
        diff = [i for i, l in enumerate(leaves) if str(l[2]) != str(vleaves[i][2])]
        if not diff:
            return False
        cls = {}
        for i in diff:
            cls.setdefault((str(leaves[i][2]), str(vleaves[i][2]), leaves[i][4]), []).append(i)
        facts = []
        fresh = {}
        for k, g in cls.items():
            st.symn += 1
            x = z3.BitVec('w%d' % st.symn, k[2])
            for i in g:
                fresh[i] = x
        reps = [g[0] for g in cls.values()]
        others = {}
        for j, l in enumerate(leaves):
            if j not in fresh and type(l[3]) is not int:
                others.setdefault((str(l[2]), str(vleaves[j][2])), j)
        for i in reps:
            for j in reps + list(others.values()):
                if j == i:
                    continue
                a, b = term(leaves[i]), term(leaves[j])
                c, d = term(vleaves[i]), term(vleaves[j])
                for op in (lambda x, y: x == y, lambda x, y: x == y + 1, lambda x, y: y == x + 1, z3.ULT, z3.ULE, z3.UGT, z3.UGE):
                    if self.valid(eng, pc, op(a, b)) and self.valid(eng, vpc, op(c, d)):
                        facts.append(op(ext(fresh[i]), ext(fresh.get(j, leaves[j][3]))))
                        break
        for i in diff:
            rid, off = leaves[i][0], leaves[i][1]
            r = eng.wr(st, rid)
            r.cells[off] = (r.cells[off][0], fresh[i]) + tuple(r.cells[off][2:])
        st.pc.extend(facts)
        eng.stats['widened'] = eng.stats.get('widened', 0) + len(cls)
        return True

    def implied(self, eng, pc, vpc, live):
        if not vpc:
            return True
        vs = z3.And(*vpc)
        free = [x for x in symbols(vs) if x.decl().name() not in live]
        if free and self.valid(eng, pc, vs):
            return True  # with the current state's dead symbols as witnesses
        if free:
            # rename so that they do not clash with the dead symbols of pc
            ren = [z3.BitVec('e!' + x.decl().name(), x.size()) if z3.is_bv(x) else z3.Bool('e!' + x.decl().name()) for x in free]
            vs = z3.Exists(ren, z3.substitute(vs, *zip(free, ren)))
        return self.valid(eng, pc, vs)

    def valid(self, eng, pc, goal):
        s = z3.Solver()
        s.set('timeout', 2000)
        for c in pc:
            s.add(c)
        s.add(z3.Not(goal))
        eng.stats['solver_calls'] += 1
        return s.check() == z3.unsat

    def canon(self, eng, st, th, top, lbl, mask=False):
        leaves = []

        def cells(r):
            o = []
            for k, c in sorted(r.cells.items()):
                v = c[1]
                if mask and c[0] in (2, 4, 8) and (type(v) is int or isinstance(v, z3.BitVecRef)):
                    leaves.append([r.id, k, None, v, c[0] * 8])
                    o.append((k, c[0], 'N'))
                else:
                    o.append((k, c[0], val(v)))
            return tuple(o)
        rid = {}
        dead = {}
        order = []
        sym = {}
        subst = []

        def symval(e):
            for x in symbols(e):
                n = x.decl().name()
                if n not in sym:
                    y = z3.BitVec('s!%d' % len(sym), x.size()) if z3.is_bv(x) else z3.Bool('s!%d' % len(sym))
                    sym[n] = y
                    subst.append((x, y))
            return z3.substitute(e, *subst).sexpr() if subst else e.sexpr()

        def val(v):
            if type(v) is int:
                return v
            if type(v) is Ptr:
                o = v.o if type(v.o) is int else symval(v.o)
                if v.r == 0:
                    return ('p', 0, o)
                r = st.regions.get(v.r)
                if r is None and v.r not in eng.globregions:
                    k = dead.setdefault(v.r, len(dead))
                    return ('d', k, o)
                if r is None or r.kind in ('const', 'extern', 'global'):
                    return ('g', eng.rinfo[v.r][1], o)
                k = rid.get(v.r)
                if k is None:
                    k = rid[v.r] = len(rid)
                    order.append(v.r)
                return ('p', k + 1, o)
            if type(v) is Fn:
                return ('f', v.name)
            if type(v) is BI:
                return ('b', symval(v.b))
            if v is UNDEF:
                return ('u',)
            if v is None:
                return None
            if type(v) is tuple:
                if v and v[0] == 'lazy':
                    return ('lazy', repr(v))
                return tuple(val(x) if not isinstance(x, str) else x for x in v)
            return ('z', symval(v))

        out = []
        for fr in th.frames:
            if fr is top:
                pos = (lbl, 0)
                live = live_in(fr.code)[lbl]
            else:
                pos = (fr.blk, fr.ip)
                live = live_at(fr.code, fr.blk, fr.ip + 1) - {strip(fr.dst)}
            regs = tuple((k, val(v)) for k, v in sorted(fr.regs.items()) if strip(k) in live)
            out.append((fr.fn.name, pos, fr.dst, fr.norm, fr.unw, regs))
        for name in sorted(eng.glob):
            r = st.regions.get(eng.glob[name])
            if r is not None and r.kind == 'global':
                out.append((name, cells(r)))
        out.append(tuple(val(Ptr(x, 0)) if isinstance(x, int) else val(x) for x in th.caught) + (th.uncaught,))
        out.append(tuple(sorted((k, v.name if isinstance(v, Fn) else repr(v)) for k, v in st.opts.items() if k not in ('weak_cas',))))
        i = 0
        while i < len(order):
            r = st.regions[order[i]]
            i += 1
            out.append((r.kind, r.size if isinstance(r.size, int) else repr(r.size), r.frozen, cells(r)))
            if order[i - 1] in st.exc:
                out.append(repr(sorted((k, v) for k, v in st.exc[order[i - 1]].items())))
        lost = sum(1 for x, r in st.regions.items() if r.kind in ('heap', 'exc') and x not in rid)
        out.append(('unreachable', lost))
        out.append(tuple(sorted((rid.get(k[0], -1), k[1]) for k in st.mutex)))
        for l in leaves:
            if type(l[3]) is int:
                l[2] = l[3]
            else:
                symval(l[3])
                l[2] = z3.simplify(z3.substitute(l[3], *subst))
        # path condition: the conjuncts connected to live symbols
        conj = []
        live = set(sym)
        rest = [(c, set(x.decl().name() for x in symbols(c))) for c in st.pc]
        reach = set(live)
        ch = True
        while ch:
            ch = False
            for c, ns in rest:
                if ns & reach and not ns <= reach:
                    reach |= ns
                    ch = True
        for c, ns in rest:
            if ns & reach:
                for x in symbols(c):
                    n = x.decl().name()
                    if n not in sym:
                        y = z3.BitVec('s!%d' % len(sym), x.size()) if z3.is_bv(x) else z3.Bool('s!%d' % len(sym))
                        sym[n] = y
                        subst.append((x, y))
                conj.append(z3.substitute(c, *subst))
        livenames = set(sym[n].decl().name() for n in live)
        return repr(out), conj, livenames, leaves


def ext(v):
    return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)


def term(l):
    return z3.BitVecVal(l[2], 64) if type(l[2]) is int else ext(l[2])


def symbols(e):
    seen = set()
    out = []
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(reversed(x.children()))
    return out
