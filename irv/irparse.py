"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang++-18 emits
from /repo's headers.  Function bodies are parsed lazily."""
import re

TOK = re.compile(r'''
   %"(?:[^"\\]|\\.)*" | %[\w.$-]+
 | @"(?:[^"\\]|\\.)*" | @[\w.$-]+
 | \$"(?:[^"\\]|\\.)*" | \$[\w.$-]+
 | c"(?:[^"])*" | "(?:[^"])*"
 | ![\w.]* | \#\d+
 | \.\.\.
 | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?[\w.$]+
 | [()\[\]{}<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'elems', 'n', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(s, k, w=0, elems=None, n=0, packed=False, name=None):
        s.k = k; s.w = w; s.elems = elems; s.n = n; s.packed = packed; s.name = name
        s._size = None; s._align = None; s._offs = None

    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'struct': return s.name or '{%s}' % ','.join(map(repr, s.elems or []))
        if s.k in ('array', 'vector'): return '[%d x %r]' % (s.n, s.elems)
        return s.k


VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata'); TOKEN = Ty('token')
FLOAT = Ty('float'); DOUBLE = Ty('double'); X86FP = Ty('x86_fp80')
_ints = {}


def INT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty('int', w)
    return t


def align_of(t):
    if t._align is not None: return t._align
    k = t.k
    if k == 'int':
        a = 1
        while a * 8 < t.w: a *= 2
        if a > 16: a = 16
    elif k == 'ptr': a = 8
    elif k == 'float': a = 4
    elif k == 'double': a = 8
    elif k == 'x86_fp80': a = 16
    elif k == 'array': a = align_of(t.elems)
    elif k == 'vector': a = size_of(t)
    elif k == 'struct':
        a = 1
        if not t.packed:
            for e in t.elems: a = max(a, align_of(e))
    else: a = 1
    t._align = a
    return a


def size_of(t):
    if t._size is not None: return t._size
    k = t.k
    if k == 'int':
        b = (t.w + 7) // 8
        a = align_of(t)
        s = (b + a - 1) // a * a
    elif k == 'ptr': s = 8
    elif k == 'float': s = 4
    elif k == 'double': s = 8
    elif k == 'x86_fp80': s = 16
    elif k == 'array': s = t.n * size_of(t.elems)
    elif k == 'vector': s = t.n * size_of(t.elems)
    elif k == 'struct':
        offs = []
        o = 0
        if t.elems is None: raise IRError('opaque type %s' % t.name)
        for e in t.elems:
            if not t.packed:
                a = align_of(e)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += size_of(e)
        if not t.packed:
            a = align_of(t)
            o = (o + a - 1) // a * a
        t._offs = offs
        s = o
    else:
        s = 0
    t._size = s
    return s


def offsets(t):
    size_of(t)
    return t._offs


# ---------------------------------------------------------------- operands / constants
class UndefT:
    __slots__ = ()
    def __repr__(s): return 'UNDEF'


UNDEF = UndefT()


class CGlobal:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return '@' + s.name


class CExpr:
    __slots__ = ('op', 'args')
    def __init__(s, op, args): s.op = op; s.args = args


class CAgg:  # constant aggregate: type + list of (ty, const)
    __slots__ = ('ty', 'elems')
    def __init__(s, ty, elems): s.ty = ty; s.elems = elems


class CZero:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty


class CNull:
    __slots__ = ()


NULL = CNull()

PARAM_ATTRS = set('''noundef nonnull zeroext signext inreg noalias nocapture nofree nest returned
 readonly writeonly readnone immarg swiftself swifterror swiftasync noreturn nounwind writable
 dead_on_unwind allocalign allocptr noext nosanitize_bounds'''.split())
CALL_FLAGS = set('''fast nnan ninf nsz arcp contract afn reassoc'''.split())
CCONV = set('ccc fastcc coldcc x86_stdcallcc preserve_mostcc'.split())


class Ins:
    __slots__ = ('op', 'd', 'a', 'b', 'c', 'ty', 'x', 'y', 'line', 'fn')

    def __init__(s, op):
        s.op = op; s.d = None; s.a = s.b = s.c = s.ty = s.x = s.y = None; s.line = None; s.fn = None


class Block:
    __slots__ = ('name', 'idx', 'ins', 'phis', 'succ', 'loop', 'loops')


class Loop:
    __slots__ = ('header', 'blocks', 'fn')


class Function:
    def __init__(s, mod, name, header, lines):
        s.mod = mod; s.name = name; s.header = header; s.lines = lines
        s.parsed = False
        s.params = None; s.blocks = None; s.nregs = 0; s.template = None; s.loops = {}
        s.dbg = None
        m = re.search(r'!dbg !(\d+)', header)
        s.dbg = int(m.group(1)) if m else None


class P:
    """token cursor"""
    def __init__(s, mod, toks, fctx=None):
        s.m = mod; s.t = toks; s.i = 0; s.f = fctx

    def peek(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else None

    def next(s):
        v = s.t[s.i]; s.i += 1
        return v

    def accept(s, v):
        if s.i < len(s.t) and s.t[s.i] == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        if s.i >= len(s.t) or s.t[s.i] != v:
            raise IRError('expected %r got %r in %r' % (v, s.peek(), ' '.join(s.t)[:400]))
        s.i += 1

    def balanced(s):
        s.expect('(')
        d = 1
        while d:
            t = s.next()
            if t == '(': d += 1
            elif t == ')': d -= 1

    def type(s):
        t = s.next()
        r = s.base_type(t)
        # function type:  ret (args)
        while s.peek() in ('(', '*'):
            if s.peek() == '*':
                s.i += 1; r = PTR
                continue
            # function type
            s.balanced()
            r = Ty('func', elems=r)
        return r

    def base_type(s, t):
        if t[0] == 'i' and t[1:].isdigit(): return INT(int(t[1:]))
        if t == 'ptr':
            if s.peek() == 'addrspace':
                s.i += 1; s.balanced()
            return PTR
        if t == 'void': return VOID
        if t == 'label': return LABEL
        if t == 'metadata': return META
        if t == 'token': return TOKEN
        if t == 'float': return FLOAT
        if t == 'double': return DOUBLE
        if t == 'x86_fp80': return X86FP
        if t == 'half': return Ty('half')
        if t[0] == '%': return s.m.named_type(t)
        if t == '{':
            el = []
            if not s.accept('}'):
                while True:
                    el.append(s.type())
                    if s.accept('}'): break
                    s.expect(',')
            return Ty('struct', elems=el)
        if t == '<':
            if s.accept('{'):
                el = []
                if not s.accept('}'):
                    while True:
                        el.append(s.type())
                        if s.accept('}'): break
                        s.expect(',')
                s.expect('>')
                return Ty('struct', elems=el, packed=True)
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>')
            return Ty('vector', n=n, elems=e)
        if t == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']')
            return Ty('array', n=n, elems=e)
        if t == 'opaque': return Ty('struct', elems=None)
        raise IRError('type? %r in %r' % (t, ' '.join(s.t)[:300]))

    def param_attrs(s):
        """skip parameter attributes, return byval type if any"""
        byval = None
        while True:
            t = s.peek()
            if t in PARAM_ATTRS:
                s.i += 1
            elif t == 'align':
                s.i += 1
                if s.peek() == '(': s.balanced()
                else: s.i += 1
            elif t == 'byval':
                s.i += 1; s.expect('('); byval = s.type(); s.expect(')')
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'inalloca', 'preallocated',
                       'elementtype', 'nofpclass', 'captures', 'range', 'memory', 'initializes', 'byref'):
                s.i += 1; s.balanced()
            elif t and t[0] == '"':
                s.i += 1
                if s.accept('='): s.i += 1
            else:
                return byval

    def const(s, ty):
        """parse a constant (no local regs)"""
        t = s.next()
        c = t[0]
        if c == '@':
            return CGlobal(unq(t))
        if t == 'null': return NULL
        if t in ('undef', 'poison'): return UNDEF
        if t == 'true': return 1
        if t == 'false': return 0
        if t == 'zeroinitializer': return CZero(ty)
        if t == 'none': return 0
        if c == 'c' and len(t) > 1 and t[1] == '"':
            return unesc(t[2:-1])
        if c == '{' or t == '<' and s.peek() == '{' or c == '[' or t == '<':
            close = '}' if c == '{' else ']' if c == '[' else '>'
            if t == '<' and s.peek() == '{':
                s.i += 1; close = '}>'
            el = []
            first = close[0]
            if not s.accept(first):
                while True:
                    et = s.type()
                    el.append((et, s.const(et)))
                    if s.accept(first): break
                    s.expect(',')
            if close == '}>': s.expect('>')
            return CAgg(ty, el)
        if t in ('getelementptr',):
            while s.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                w = s.next()
                if w == 'inrange' and s.peek() == '(': s.balanced()
            s.expect('(')
            bt = s.type(); s.expect(',')
            ops = []
            while True:
                s.accept('inrange')
                ot = s.type()
                ops.append((ot, s.const(ot)))
                if s.accept(')'): break
                s.expect(',')
            return CExpr('gep', (bt, ops))
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('(')
            ot = s.type(); v = s.const(ot)
            s.expect('to'); nt = s.type(); s.expect(')')
            return CExpr(t, (ot, v, nt))
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select'):
            while s.peek() in ('nsw', 'nuw', 'exact'): s.i += 1
            pred = None
            if t == 'icmp': pred = s.next()
            s.expect('(')
            ops = []
            while True:
                ot = s.type(); ops.append((ot, s.const(ot)))
                if s.accept(')'): break
                s.expect(',')
            return CExpr(t, (pred, ops))
        if t == 'dso_local_equivalent' or t == 'no_cfi':
            return CGlobal(unq(s.next()))
        if ty.k == 'int':
            return int(t) & ((1 << ty.w) - 1)
        if ty.k in ('double', 'float', 'x86_fp80'):
            return parse_float(t, ty)
        raise IRError('const? %r of %r' % (t, ty))

    # operands inside functions -> register slot index
    def value(s, ty):
        t = s.peek()
        if t[0] == '%':
            s.i += 1
            return s.f.reg(unq(t))
        if ty.k == 'metadata':
            # skip metadata operand
            while s.peek() not in (',', ')', None):
                if s.peek() == '(':
                    s.balanced()
                else:
                    s.i += 1
            return s.f.cst(ty, 0)
        return s.f.cst(ty, s.const(ty))

    def tvalue(s):
        ty = s.type()
        return ty, s.value(ty)

    def label(s):
        s.expect('label')
        return unq(s.next())


def parse_float(t, ty):
    import struct
    if t.startswith('0xK'):
        return 0.0
    if t.startswith('0x'):
        return struct.unpack('>d', int(t, 16).to_bytes(8, 'big'))[0]
    return float(t)


def unq(t):
    t = t[1:]
    if t[0] == '"':
        return t[1:-1]
    return t


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class FCtx:
    def __init__(s, mod):
        s.m = mod
        s.regs = {}
        s.n = 0
        s.consts = []   # (slot, ty, const)
        s.ckey = {}

    def reg(s, name):
        r = s.regs.get(name)
        if r is None:
            r = s.regs[name] = s.n
            s.n += 1
        return r

    def cst(s, ty, c):
        key = None
        if isinstance(c, (int, float)): key = (ty.k, ty.w, c)
        elif isinstance(c, CGlobal): key = ('g', c.name)
        elif c is NULL: key = 'null'
        if key is not None:
            r = s.ckey.get(key)
            if r is not None: return r
        r = s.n; s.n += 1
        s.consts.append((r, ty, c))
        if key is not None: s.ckey[key] = r
        return r


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast addrspacecast fptrunc fpext fptoui fptosi uitofp sitofp'.split())


class Module:
    def __init__(s, text):
        s.types = {}
        s.type_defs = {}
        s.globals = {}     # name -> dict(line) lazily parsed
        s.funcs = {}       # name -> Function (defined)
        s.decls = set()
        s.aliases = {}
        s.md = {}
        s.text_lines = text.split('\n')
        s._scan()

    def _scan(s):
        L = s.text_lines
        i = 0
        n = len(L)
        while i < n:
            l = L[i]
            if not l:
                i += 1; continue
            c = l[0]
            if c == '%':
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[\w.$-]+) = type (.*)$', l)
                s.type_defs[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+) = (.*)$', l)
                name = unq(m.group(1)); rest = m.group(2)
                if re.match(r'(?:\w+ )*?(alias|ifunc) ', rest) and (' alias ' in (' ' + rest)):
                    s.aliases[name] = rest
                else:
                    s.globals[name] = rest
            elif l.startswith('define '):
                j = i + 1
                while L[j] != '}': j += 1
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+)\(', l)
                name = unq(m.group(1))
                s.funcs[name] = Function(s, name, l, L[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+)\(', l)
                s.decls.add(unq(m.group(1)))
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: s.md[int(m.group(1))] = m.group(2)
            i += 1

    def named_type(s, tok):
        name = unq(tok)
        t = s.types.get(name)
        if t is None:
            t = Ty('struct', name=name)
            s.types[name] = t
            d = s.type_defs.get(name)
            if d is not None and d != 'opaque':
                x = P(s, TOK.findall(d)).type()
                t.elems = x.elems; t.packed = x.packed; t.n = x.n; t.k = x.k; t.w = x.w
        return t

    def srcline(s, dbg):
        """(file, line) for a !dbg number"""
        try:
            d = s.md[dbg]
            ln = int(re.search(r'line: (\d+)', d).group(1))
            sc = int(re.search(r'scope: !(\d+)', d).group(1))
            for _ in range(20):
                sd = s.md[sc]
                m = re.search(r'file: !(\d+)', sd)
                if m:
                    f = re.search(r'filename: "([^"]*)"', s.md[int(m.group(1))]).group(1)
                    return f, ln
                sc = int(re.search(r'scope: !(\d+)', sd).group(1))
        except Exception:
            pass
        return None, None

    # ------------------------------------------------------------ functions
    def parse_function(s, f):
        ctx = FCtx(s)
        toks = TOK.findall(f.header)
        # find name
        at = [k for k, t in enumerate(toks) if t[0] == '@' and unq(t) == f.name][0]
        p = P(s, toks, ctx)
        p.i = at + 1
        p.expect('(')
        f.params = []
        f.varargs = False
        unnamed = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.varargs = True
                    p.expect(')'); break
                ty = p.type()
                bv = p.param_attrs()
                if p.peek() and p.peek()[0] == '%':
                    nm = unq(p.next())
                else:
                    nm = str(unnamed)
                if nm.isdigit(): unnamed += 1
                f.params.append((ty, ctx.reg(nm)))
                if p.accept(')'): break
                p.expect(',')
        # blocks
        lines = []
        for l in f.lines:
            if not l: continue
            if l.startswith('    ') or l.startswith('  ]'):
                lines[-1] += ' ' + l.strip()
            else:
                lines.append(l)
        blocks = []
        cur = None
        bm = {}
        for l in lines:
            if l[0] != ' ':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$-]+):', l)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"': nm = nm[1:-1]
                    cur = Block(); cur.name = nm; cur.idx = len(blocks); cur.ins = []; cur.phis = []; cur.succ = []
                    cur.loops = ()
                    blocks.append(cur); bm[nm] = cur
                    continue
                if l[0] == ';': continue
                raise IRError('line? ' + l)
            if cur is None:
                cur = Block(); cur.name = str(unnamed); cur.idx = 0; cur.ins = []; cur.phis = []; cur.succ = []
                cur.loops = ()
                blocks.append(cur); bm[cur.name] = cur
            ins = s.parse_ins(l, ctx)
            if ins is None: continue
            ins.fn = f
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        # resolve labels
        for b in blocks:
            t = b.ins[-1]
            if t.op == 'br':
                t.x = bm[t.x]
                b.succ = [t.x]
                if t.y is not None:
                    t.y = bm[t.y]; b.succ.append(t.y)
            elif t.op == 'switch':
                t.x = bm[t.x]
                t.y = [(v, bm[n]) for v, n in t.y]
                b.succ = [t.x] + [n for _, n in t.y]
            elif t.op == 'invoke':
                t.x = bm[t.x]; t.y = bm[t.y]
                b.succ = [t.x, t.y]
            for ph in b.phis:
                ph.x = {bm[n].idx: slot for slot, n in ph.x}
        f.blocks = blocks
        f.nregs = ctx.n
        f.consts = ctx.consts
        f.regnames = ctx.regs
        s.find_loops(f)
        f.parsed = True
        f.lines = None

    def find_loops(s, f):
        blocks = f.blocks
        n = len(blocks)
        preds = [[] for _ in range(n)]
        for b in blocks:
            for q in b.succ: preds[q.idx].append(b.idx)
        # reverse postorder
        seen = [False] * n
        order = []
        stack = [(0, iter([x.idx for x in blocks[0].succ]))]
        seen[0] = True
        onstack = [False] * n
        has_back = False
        onstack[0] = True
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True; onstack[v] = True
                    stack.append((v, iter([x.idx for x in blocks[v].succ])))
                    break
                elif onstack[v]:
                    has_back = True
            else:
                order.append(u); onstack[u] = False
                stack.pop()
        f.loops = {}
        if not has_back: return
        order.reverse()
        pos = {u: k for k, u in enumerate(order)}
        idom = {0: 0}
        changed = True

        def inter(a, b):
            while a != b:
                while pos[a] > pos[b]: a = idom[a]
                while pos[b] > pos[a]: b = idom[b]
            return a
        while changed:
            changed = False
            for u in order[1:]:
                new = None
                for q in preds[u]:
                    if q in idom:
                        new = q if new is None else inter(new, q)
                if new is not None and idom.get(u) != new:
                    idom[u] = new; changed = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        for u in order:
            for q in blocks[u].succ:
                h = q.idx
                if dom(h, u):
                    L = f.loops.get(h)
                    if L is None:
                        L = Loop(); L.header = h; L.blocks = {h}; L.fn = f
                        f.loops[h] = L
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            st.extend(preds[x])

    def parse_ins(s, l, ctx):
        dbg = None
        k = l.find(', !dbg !')
        if k >= 0:
            m = re.match(r', !dbg !(\d+)', l[k:])
            dbg = int(m.group(1))
            l = l[:k]
        else:
            k = l.find(', !')
            if k >= 0: l = l[:k]
        if ' !' in l and ', !' in l:
            l = l[:l.find(', !')]
        toks = TOK.findall(l)
        p = P(s, toks, ctx)
        d = None
        if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
            d = ctx.reg(unq(toks[0])); p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        ins = Ins(op); ins.d = d; ins.line = dbg
        if op in BINOPS:
            fl = 0
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in CALL_FLAGS:
                t = p.next()
                if t == 'nsw': fl |= 1
                if t == 'nuw': fl |= 2
            ty = p.type()
            ins.ty = ty; ins.a = p.value(ty); p.expect(','); ins.b = p.value(ty); ins.x = fl
            if ty.k == 'vector': ins.op = 'unsupported'; ins.x = l
        elif op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.i += 1
            ty = p.type(); ins.a = p.value(ty); p.expect('to')
            ins.ty = p.type(); ins.b = ty
            if ins.ty.k == 'vector' or ty.k == 'vector': ins.op = 'unsupported'; ins.x = l
        elif op == 'load':
            while p.peek() in ('atomic', 'volatile'):
                if p.next() == 'atomic': ins.x = True
            ins.ty = p.type(); p.expect(',')
            _, ins.a = p.tvalue()
        elif op == 'store':
            while p.peek() in ('atomic', 'volatile'):
                if p.next() == 'atomic': ins.x = True
            ins.ty, ins.a = p.tvalue(); p.expect(',')
            _, ins.b = p.tvalue()
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.i += 1
            bt = p.type(); p.expect(',')
            _, base = p.tvalue()
            idx = []
            while p.accept(','):
                it, iv = p.tvalue()
                idx.append((it, iv))
            ins.op = 'gep'
            ins.a = base
            s.lower_gep(ins, bt, idx, ctx)
        elif op == 'icmp':
            ins.x = p.next(); ins.ty = p.type(); ins.a = p.value(ins.ty); p.expect(','); ins.b = p.value(ins.ty)
        elif op == 'fcmp':
            while p.peek() in CALL_FLAGS: p.i += 1
            ins.x = p.next(); ins.ty = p.type(); ins.a = p.value(ins.ty); p.expect(','); ins.b = p.value(ins.ty)
        elif op == 'fneg':
            while p.peek() in CALL_FLAGS: p.i += 1
            ins.ty, ins.a = p.tvalue()
        elif op == 'br':
            if p.peek() == 'label':
                ins.x = p.label()
            else:
                _, ins.a = p.tvalue(); p.expect(',')
                ins.x = p.label(); p.expect(','); ins.y = p.label()
        elif op == 'switch':
            ins.ty, ins.a = p.tvalue(); p.expect(',')
            ins.x = p.label(); p.expect('[')
            cs = []
            while not p.accept(']'):
                t = p.type(); v = p.const(t); p.expect(','); cs.append((v, p.label()))
            ins.y = cs
        elif op == 'ret':
            if p.peek() != 'void':
                ins.ty, ins.a = p.tvalue()
        elif op == 'phi':
            while p.peek() in CALL_FLAGS: p.i += 1
            ins.ty = p.type()
            inc = []
            while True:
                p.expect('['); v = p.value(ins.ty); p.expect(','); b = unq(p.next()); p.expect(']')
                inc.append((v, b))
                if not p.accept(','): break
            ins.x = inc
        elif op == 'alloca':
            p.accept('inalloca')
            ins.ty = p.type()
            ins.a = None
            while p.accept(','):
                if p.peek() == 'align': break
                ct, ins.a = p.tvalue()
        elif op in ('call', 'invoke'):
            while p.peek() in CALL_FLAGS or p.peek() in CCONV: p.i += 1
            p.param_attrs()
            ty = p.type()
            if ty.k == 'func': ty = ty.elems
            ins.ty = ty
            t = p.peek()
            if t == 'asm':
                ins.op = 'asm'; ins.x = l
                return ins
            if t[0] == '@':
                nm = unq(p.next())
                nm2 = s.alias_target(nm)
                ins.c = nm2
                ins.a = None
                if nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.invariant', 'llvm.prefetch', 'llvm.var.annotation')):
                    return None
            else:
                ins.a = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type(); bv = p.param_attrs()
                    av = p.value(at)
                    args.append((av, at, bv))
                    if p.accept(')'): break
                    p.expect(',')
            ins.b = args
            if op == 'invoke':
                while p.peek() != 'to':
                    if p.peek() == '(' or p.peek() == '[':
                        if p.peek() == '(': p.balanced()
                        else:
                            while p.next() != ']': pass
                    else: p.i += 1
                p.expect('to'); ins.x = p.label(); p.expect('unwind'); ins.y = p.label()
        elif op == 'landingpad':
            ins.ty = p.type()
            cl = []
            while p.peek() is not None:
                t = p.next()
                if t == 'cleanup': cl.append(('cleanup', None))
                elif t == 'catch':
                    ty = p.type(); cl.append(('catch', p.const(ty)))
                elif t == 'filter':
                    ty = p.type(); cl.append(('filter', p.const(ty)))
            ins.x = cl
        elif op == 'resume':
            ins.ty, ins.a = p.tvalue()
        elif op == 'extractvalue':
            ins.ty, ins.a = p.tvalue()
            idx = []
            while p.accept(','): idx.append(int(p.next()))
            ins.x = idx
        elif op == 'insertvalue':
            ins.ty, ins.a = p.tvalue(); p.expect(',')
            _, ins.b = p.tvalue()
            idx = []
            while p.accept(','): idx.append(int(p.next()))
            ins.x = idx
        elif op == 'select':
            while p.peek() in CALL_FLAGS: p.i += 1
            ct, ins.a = p.tvalue(); p.expect(',')
            ins.ty, ins.b = p.tvalue(); p.expect(',')
            _, ins.c = p.tvalue()
        elif op == 'freeze':
            ins.ty, ins.a = p.tvalue()
        elif op == 'unreachable' or op == 'fence':
            pass
        elif op == 'atomicrmw':
            p.accept('volatile')
            ins.x = p.next()
            _, ins.a = p.tvalue(); p.expect(',')
            ins.ty, ins.b = p.tvalue()
        elif op == 'cmpxchg':
            ins.x = False
            while p.peek() in ('weak', 'volatile'):
                if p.next() == 'weak': ins.x = True
            _, ins.a = p.tvalue(); p.expect(',')
            ins.ty, ins.b = p.tvalue(); p.expect(',')
            _, ins.c = p.tvalue()
        else:
            ins.op = 'unsupported'; ins.x = l
        return ins

    def alias_target(s, nm):
        for _ in range(5):
            if nm in s.aliases:
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+)\s*$', s.aliases[nm].split(', comdat')[0])
                nm = unq(m.group(1))
            else:
                break
        return nm

    def lower_gep(s, ins, bt, idx, ctx):
        """ins.x = constant byte offset, ins.y = [(slot, width, scale)]"""
        const = 0
        dyn = []
        cmap = {sl: c for sl, ty, c in ctx.consts if isinstance(c, int)}
        t = bt
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                sz = size_of(t)
                if iv in cmap: const += sgn(cmap[iv], it.w) * sz
                else: dyn.append((iv, it.w, sz))
            else:
                if t.k == 'struct':
                    j = cmap[iv]
                    const += offsets(t)[j]
                    t = t.elems[j]
                else:
                    t = t.elems
                    sz = size_of(t)
                    if iv in cmap: const += sgn(cmap[iv], it.w) * sz
                    else: dyn.append((iv, it.w, sz))
        ins.x = const; ins.y = dyn

    # ------------------------------------------------------------ globals
    def parse_global(s, name):
        """returns (type, const or None(external), is_const)"""
        rest = s.globals[name]
        toks = TOK.findall(rest)
        p = P(s, toks)
        ext = False
        while True:
            t = p.next()
            if t in ('external', 'extern_weak'): ext = True
            elif t in ('global', 'constant'): break
            elif t in ('thread_local', 'addrspace'):
                if p.peek() == '(': p.balanced()
        isconst = t == 'constant'
        ty = p.type()
        init = None
        if not ext:
            init = p.const(ty)
        return ty, init, isconst


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v
