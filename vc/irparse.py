"""Parser for the textual LLVM IR (clang 18, opaque pointers, -O0) that the VC generator consumes.

Function bodies are parsed lazily.  Only the subset clang emits for C++ at -O0 is supported; anything
else raises Unsupported, which the driver reports as 'undecided', never as a violation.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<punct>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('cannot tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            t = m.group()
            if k in ('gid', 'lid') and t[1] == '"':
                t = t[0] + t[2:-1]
            out.append((k, t))
    return out


# ---- types: ('i',n) ('ptr',) ('void',) ('struct',[..],packed) ('arr',n,t) ('named',name) ('float',k) ('func',) ('label',) ('meta',)
PTR = ('ptr',)
VOID = ('void',)
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias',
               'returned', 'inreg', 'immarg', 'dead_on_unwind', 'writable', 'nest', 'swiftself', 'allocptr', 'noreturn'}
PARAM_ATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                     'inalloca', 'preallocated', 'memory', 'captures'}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def peekk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported('expected %r at %r' % (s, self.t[self.i:self.i + 6]))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1


def parse_type(p):
    k, t = p.t[p.i]
    p.i += 1
    if k == 'word':
        if t == 'ptr':
            ty = PTR
        elif t == 'void':
            ty = VOID
        elif t[0] == 'i' and t[1:].isdigit():
            ty = ('i', int(t[1:]))
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            ty = ('float', t)
        elif t == 'label':
            ty = ('label',)
        elif t == 'metadata':
            ty = ('meta',)
        elif t == 'token':
            ty = ('token',)
        elif t == 'opaque':
            ty = ('opaque',)
        else:
            raise Unsupported('type ' + t)
    elif k == 'lid':
        ty = ('named', t)
    elif t == '{':
        f = []
        if not p.accept('}'):
            while True:
                f.append(parse_type(p))
                if p.accept('}'):
                    break
                p.expect(',')
        ty = ('struct', tuple(f), False)
    elif t == '<':
        if p.accept('{'):
            f = []
            if not p.accept('}'):
                while True:
                    f.append(parse_type(p))
                    if p.accept('}'):
                        break
                    p.expect(',')
            p.expect('>')
            ty = ('struct', tuple(f), True)
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            ty = ('vec', n, e)
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = ('arr', n, e)
    else:
        raise Unsupported('type token %r' % t)
    # function type suffix
    while p.peek() == '(' and True:
        p.i += 1
        args = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    args.append('...')
                else:
                    args.append(parse_type(p))
                if p.accept(')'):
                    break
                p.expect(',')
        ty = ('func', ty, tuple(args))
    return ty


def skip_attrs(p):
    """skip parameter / return attributes; returns sret type if any"""
    sret = None
    while True:
        w = p.peek()
        if w in PARAM_ATTRS:
            p.i += 1
        elif w in PARAM_ATTRS_PAREN:
            p.i += 1
            if w == 'sret':
                sret = True
            if p.peek() == '(':
                p.skip_paren()
            elif w == 'align':
                p.next()
        elif p.peekk() == 'attr':
            p.i += 1
        else:
            return sret


# ---- constants / operands
# ('r', name)                 register
# ('c', value)                python int
# ('g', name)                 global / function address
# ('null',) ('undef',) ('zero',) ('agg',[(ty,op)...]) ('str', bytes)
# ('ce', 'getelementptr', srcty, base, idxs) and casts ('ce','ptrtoint',op,ty) etc.

CASTS = {'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'}
BINS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_value(p, ty):
    k, t = p.t[p.i]
    p.i += 1
    if k == 'lid':
        return ('r', t)
    if k == 'gid':
        return ('g', t)
    if k == 'num':
        if ty[0] == 'i':
            return ('c', int(t) & ((1 << ty[1]) - 1))
        if ty[0] == 'float':
            return ('f', t)
        raise Unsupported('number for type %r' % (ty,))
    if k == 'str':
        return ('str', unescape(t[2:-1]))
    if k == 'word':
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t in ('null',):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('zero',)
        if t == 'getelementptr':
            inb = False
            while p.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                p.i += 1
            p.expect('(')
            sty = parse_type(p)
            p.expect(',')
            ops = []
            while True:
                if p.accept('inrange'):
                    if p.peek() == '(':
                        p.skip_paren()
                oty = parse_type(p)
                ops.append((oty, parse_value(p, oty)))
                if p.accept(')'):
                    break
                p.expect(',')
            return ('ce', 'gep', sty, ops[0][1], ops[1:])
        if t in CASTS:
            p.expect('(')
            fty = parse_type(p)
            v = parse_value(p, fty)
            p.expect('to')
            tty = parse_type(p)
            p.expect(')')
            return ('ce', 'cast', t, fty, v, tty)
        if t in BINS:
            while p.peek() in ('nuw', 'nsw', 'exact'):
                p.i += 1
            p.expect('(')
            aty = parse_type(p)
            a = parse_value(p, aty)
            p.expect(',')
            bty = parse_type(p)
            b = parse_value(p, bty)
            p.expect(')')
            return ('ce', 'bin', t, aty, a, b)
        if t == 'dso_local_equivalent' or t == 'no_cfi':
            return ('g', p.next())
        if t == 'asm':
            raise Unsupported('inline asm')
        raise Unsupported('constant %r' % t)
    if t == '{' or t == '[' or t == '<':
        packed = False
        if t == '<' and p.peek() == '{':
            p.i += 1
            packed = True
            t = '{'
        close = {'{': '}', '[': ']', '<': '>'}[t]
        out = []
        if not p.accept(close):
            while True:
                ety = parse_type(p)
                out.append((ety, parse_value(p, ety)))
                if p.accept(close):
                    break
                p.expect(',')
        if packed:
            p.expect('>')
        return ('agg', out)
    raise Unsupported('value token %r' % t)


class Instr:
    __slots__ = ('op', 'dst', 'a', 'line')

    def __init__(self, op, dst, a, line):
        self.op = op
        self.dst = dst
        self.a = a
        self.line = line

    def __repr__(self):
        return self.line.strip()


def parse_call_rest(p):
    """after optional tail/cc: attrs, type, callee, args; returns (retty, callee, args)"""
    while p.peek() in ('fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'nnan', 'fast', 'reassoc'):
        p.i += 1
    skip_attrs(p)
    ty = parse_type(p)
    if ty[0] == 'func':
        ret = ty[1]
        # the trailing (args) got swallowed only if it was a function type before callee
    else:
        ret = ty
    k = p.peekk()
    if k in ('gid', 'lid'):
        callee = parse_value(p, PTR)
    elif p.peek() == 'asm':
        raise Unsupported('inline asm')
    else:
        callee = parse_value(p, PTR)
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            aty = parse_type(p)
            if aty[0] == 'meta':
                while p.peek() not in (',', ')'):
                    if p.peek() == '(':
                        p.skip_paren()
                    else:
                        p.next()
                args.append((aty, ('undef',)))
            else:
                byval = False
                while True:
                    w = p.peek()
                    if w == 'byval':
                        byval = True
                    if w in PARAM_ATTRS or w in PARAM_ATTRS_PAREN:
                        j = p.i
                        if w == 'byval':
                            # byval(T): remember the type
                            p.i += 1
                            p.expect('(')
                            bty = parse_type(p)
                            p.expect(')')
                            aty = ('byval', bty)
                            continue
                        skip_attrs_one(p)
                    else:
                        break
                args.append((aty, parse_value(p, PTR if aty[0] == 'byval' else aty)))
            if p.accept(')'):
                break
            p.expect(',')
    return ret, callee, args


def skip_attrs_one(p):
    w = p.next()
    if w in PARAM_ATTRS_PAREN:
        if p.peek() == '(':
            p.skip_paren()
        elif w == 'align':
            p.next()


ORDERS = {'unordered': 0, 'monotonic': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}


def parse_instr(line):
    p = P(tokenize(line))
    # strip metadata suffix lazily: we never read past what we need
    dst = None
    if p.peekk() == 'lid' and p.t[p.i + 1][1] == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        ty = parse_type(p)
        n = ('c', 1)
        if p.accept(','):
            if p.peek() != 'align':
                nty = parse_type(p)
                n = parse_value(p, nty)
        return Instr('alloca', dst, (ty, n), line)
    if op == 'load':
        at = p.accept('atomic')
        p.accept('volatile')
        ty = parse_type(p)
        p.expect(',')
        parse_type(p)
        ptr = parse_value(p, PTR)
        return Instr('load', dst, (ty, ptr), line)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        parse_type(p)
        ptr = parse_value(p, PTR)
        return Instr('store', None, (ty, v, ptr), line)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.i += 1
        sty = parse_type(p)
        p.expect(',')
        parse_type(p)
        base = parse_value(p, PTR)
        idxs = []
        while p.accept(','):
            if p.peekk() == 'meta':
                break
            ity = parse_type(p)
            idxs.append((ity, parse_value(p, ity)))
        return Instr('gep', dst, (sty, base, idxs), line)
    if op == 'call':
        ret, callee, args = parse_call_rest(p)
        return Instr('call', dst, (ret, callee, args), line)
    if op == 'invoke':
        ret, callee, args = parse_call_rest(p)
        while p.peek() != 'to':
            p.next()
        p.expect('to')
        p.expect('label')
        n = p.next()
        p.expect('unwind')
        p.expect('label')
        u = p.next()
        return Instr('invoke', dst, (ret, callee, args, n[1:], u[1:]), line)
    if op == 'br':
        if p.accept('label'):
            return Instr('jmp', None, (p.next()[1:],), line)
        ty = parse_type(p)
        c = parse_value(p, ty)
        p.expect(',')
        p.expect('label')
        a = p.next()[1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1:]
        return Instr('br', None, (c, a, b), line)
    if op == 'switch':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cty = parse_type(p)
            cv = parse_value(p, cty)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1:]))
        return Instr('switch', None, (ty, v, d, cases), line)
    if op == 'ret':
        ty = parse_type(p)
        if ty == VOID:
            return Instr('ret', None, (ty, None), line)
        return Instr('ret', None, (ty, parse_value(p, ty)), line)
    if op == 'unreachable':
        return Instr('unreachable', None, (), line)
    if op == 'resume':
        ty = parse_type(p)
        return Instr('resume', None, (parse_value(p, ty),), line)
    if op == 'icmp':
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Instr('icmp', dst, (pred, ty, a, b), line)
    if op in BINS:
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.i += 1
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Instr('bin', dst, (op, ty, a, b), line)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.i += 1
        fty = parse_type(p)
        v = parse_value(p, fty)
        p.expect('to')
        tty = parse_type(p)
        return Instr('cast', dst, (op, fty, v, tty), line)
    if op == 'select':
        cty = parse_type(p)
        c = parse_value(p, cty)
        p.expect(',')
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        parse_type(p)
        b = parse_value(p, ty)
        return Instr('select', dst, (c, a, b), line)
    if op == 'phi':
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            inc.append((p.next()[1:], v))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peekk() == 'meta':
                break
        return Instr('phi', dst, (ty, dict(inc)), line)
    if op == 'extractvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        idx = []
        while p.accept(','):
            if p.peekk() == 'meta':
                break
            idx.append(int(p.next()))
        return Instr('extractvalue', dst, (v, idx), line)
    if op == 'insertvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        ety = parse_type(p)
        e = parse_value(p, ety)
        idx = []
        while p.accept(','):
            if p.peekk() == 'meta':
                break
            idx.append(int(p.next()))
        return Instr('insertvalue', dst, (ty, v, ety, e, idx), line)
    if op == 'landingpad':
        ty = parse_type(p)
        clauses = []
        cleanup = False
        while p.peek() in ('cleanup', 'catch', 'filter'):
            w = p.next()
            if w == 'cleanup':
                cleanup = True
            elif w == 'catch':
                cty = parse_type(p)
                clauses.append(('catch', parse_value(p, cty)))
            else:
                cty = parse_type(p)
                clauses.append(('filter', parse_value(p, cty)))
        return Instr('landingpad', dst, (cleanup, clauses), line)
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        parse_type(p)
        ptr = parse_value(p, PTR)
        p.expect(',')
        ty = parse_type(p)
        cmpv = parse_value(p, ty)
        p.expect(',')
        parse_type(p)
        new = parse_value(p, ty)
        so = p.next()
        fo = p.next()
        return Instr('cmpxchg', dst, (ty, ptr, cmpv, new, ' weak ' in line), line)
    if op == 'atomicrmw':
        p.accept('volatile')
        kind = p.next()
        parse_type(p)
        ptr = parse_value(p, PTR)
        p.expect(',')
        ty = parse_type(p)
        v = parse_value(p, ty)
        return Instr('atomicrmw', dst, (kind, ty, ptr, v), line)
    if op == 'fence':
        return Instr('nop', None, (), line)
    if op == 'freeze':
        ty = parse_type(p)
        return Instr('freeze', dst, (parse_value(p, ty),), line)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg', 'fpext', 'fptrunc'):
        return Instr('fp', dst, (), line)
    raise Unsupported('instruction %r' % line.strip())


class Function:
    def __init__(self, name, header, body):
        self.name = name
        self.header = header
        self.body = body
        self.parsed = False
        self.params = None

    def parse(self):
        if self.parsed:
            return
        h = self.header
        p = P(tokenize(h))
        # find the @name token followed by (
        i = next(i for i, (k, t) in enumerate(p.t) if k == 'gid' and t[1:] == self.name and p.t[i + 1][1] == '(')
        p.i = i + 2
        params = []
        self.vararg = False
        n = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    ty = parse_type(p)
                    byval = None
                    while True:
                        w = p.peek()
                        if w == 'byval':
                            p.i += 1
                            p.expect('(')
                            byval = parse_type(p)
                            p.expect(')')
                        elif w in PARAM_ATTRS or w in PARAM_ATTRS_PAREN:
                            skip_attrs_one(p)
                        else:
                            break
                    if p.peekk() == 'lid':
                        nm = p.next()
                    else:
                        nm = '%%%d' % n
                    n += 1
                    params.append((nm, ty, byval))
                if p.accept(')'):
                    break
                p.expect(',')
        self.params = params
        self.nounwind_hdr = None
        blocks = {}
        order = []
        cur = None
        cont = None
        for ln in self.body:
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if s[0] == '#dbg':
                continue
            if ln[0] not in ' \t' and cont is None:
                m = re.match(r'("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', s)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    cur = []
                    blocks[nm] = cur
                    order.append(nm)
                    continue
            if cur is None:
                cur = []
                blocks['entry'] = cur
                order.append('entry')
            if cont is not None:
                cont += ' ' + s
                if cont_done(cont):
                    cur.append(cont)
                    cont = None
                continue
            if cont_done(s):
                cur.append(s)
            else:
                cont = s
        if cont is not None:
            cur.append(cont)
        # landingpad clauses and invoke 'to' are continuation lines
        self.blocks = {}
        for b in order:
            lines = merge_lines(blocks[b])
            self.blocks[b] = [parse_instr(l) for l in lines]
        self.entry = order[0]
        self.order = order
        self.parsed = True
        self.loops = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'jmp':
            return [t.a[0]]
        if t.op == 'br':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        if t.op == 'invoke':
            return [t.a[3], t.a[4]]
        return []

    def find_loops(self):
        """natural loops: header -> set of blocks"""
        if self.loops is not None:
            return self.loops
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                preds[s].append(b)
        # dominators (iterative)
        allb = set(self.order)
        dom = {b: set(allb) for b in self.order}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in preds[b]]
                nd = (set.intersection(*ps) if ps else set()) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in self.order:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.loops = loops
        return loops


def cont_done(s):
    # switch tables span several lines; keep going until the closing bracket
    if re.match(r'switch ', s):
        return s.rstrip().endswith(']') or re.search(r'\]\s*(,\s*!.*)?$', s) is not None
    return True


def merge_lines(lines):
    out = []
    for l in lines:
        if re.match(r'(to label|catch |cleanup|filter )', l):
            out[-1] += ' ' + l
        else:
            out.append(l)
    return out


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (ty, init-value-or-None, is_const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._sz = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                p = P(tokenize(ln))
                nm = p.next()
                p.next()
                p.next()
                self.types[nm] = parse_type(p) if p.peek() != 'opaque' else ('opaque',)
            elif ln.startswith('@'):
                self.global_line(ln)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                nm = self.fname(ln)
                self.funcs[nm] = Function(nm, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                self.decls[self.fname(ln)] = ln
            i += 1

    @staticmethod
    def fname(ln):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        nm = m.group(1)
        return nm[1:-1] if nm[0] == '"' else nm

    def global_line(self, ln):
        p = P(tokenize(ln))
        nm = p.next()[1:]
        p.expect('=')
        external = False
        while True:
            w = p.peek()
            if w in ('global', 'constant'):
                p.i += 1
                break
            if w == 'alias':
                p.i += 1
                parse_type(p)
                p.expect(',')
                parse_type(p)
                self.aliases[nm] = parse_value(p, PTR)
                return
            if w in ('external', 'extern_weak'):
                external = True
            p.i += 1
            if p.peek() == '(':
                p.skip_paren()
        const = w == 'constant'
        ty = parse_type(p)
        init = None
        if not external and p.i < len(p.t) and p.peek() != ',':
            init = parse_value(p, ty)
        self.globals[nm] = (ty, init, const)

    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def size_align(self, ty):
        r = self._sz.get(ty)
        if r:
            return r
        t = self.resolve(ty)
        k = t[0]
        if k == 'i':
            n = 1
            while n * 8 < t[1]:
                n *= 2
            r = (n, min(n, 16))
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'float':
            r = {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16)}[t[1]]
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'func':
            r = (1, 1)
        elif k == 'opaque':
            r = (0, 1)
        else:
            raise Unsupported('sizeof %r' % (t,))
        self._sz[ty] = r
        return r

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def field_offsets(self, t):
        key = ('fo', t)
        r = self._sz.get(key)
        if r:
            return r
        off = 0
        out = []
        for f in t[1]:
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            out.append(off)
            off += s
        self._sz[key] = out
        return out
