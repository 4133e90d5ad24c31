"""Parser for the subset of textual LLVM 18 IR that clang emits for this code base."""
import re, struct
from expr import literal, Undecided, UNDEF, NAN
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
 (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)|(?P<glo>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)|
 (?P<cstr>c"(?:[^"\\]|\\.)*")|(?P<str>"(?:[^"\\]|\\.)*")|
 (?P<md>![\w.]*)|(?P<grp>\#\d+)|(?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)|
 (?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)|(?P<int>-?\d+)|(?P<dots>\.\.\.)|(?P<word>[A-Za-z_$][\w.$]*)|
 (?P<p>[()\[\]{}<>,=*:|^]))''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    m = TOK.match(s, i)
    while m:
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
        m = TOK.match(s, i)
    return out

class T:  # types
    __slots__ = ('k', 'n', 'el', 'size', 'align', 'offs', 'name', 'packed')
    def __init__(s, k): s.k = k; s.size = None; s.el = None; s.offs = None; s.name = None; s.packed = False
    def __repr__(s): return s.k + (str(s.n) if s.k == 'i' else '')
_it = {}
def ity(n):
    t = _it.get(n)
    if not t:
        t = T('i'); t.n = n; t.size = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        t.align = t.size; _it[n] = t
    return t
def simple(k, sz):
    t = T(k); t.size = sz; t.align = min(sz, 16) or 1; return t
PTR = simple('ptr', 8); DBL = simple('double', 8); FLT = simple('float', 4); F80 = simple('x86_fp80', 16)
VOID = simple('void', 0); LABEL = simple('label', 0); META = simple('metadata', 0); OPAQ = simple('opaque', 8)

def unesc(s):
    b = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': b.append(92); i += 2
            else: b.append(int(s[i+1:i+3], 16)); i += 3
        else: b += s[i].encode('utf8'); i += 1
    return bytes(b)
def cleanname(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'): s = s[1:-1]
    return s

PARAM_ATTRS = set('''noundef nonnull nocapture readonly writeonly readnone signext zeroext inreg noalias returned
 nofree nest immarg writable dead_on_unwind swiftself allocptr allocalign noinline inrange inbounds nuw nsw exact disjoint nneg
 local_unnamed_addr unnamed_addr dso_local hidden internal linkonce_odr weak_odr available_externally private external weak
 linkonce appending common protected default dso_preemptable fastcc ccc coldcc cold tail musttail notail volatile
 nnan ninf nsz arcp contract afn reassoc fast constant thread_local willreturn nounwind noreturn nobuiltin builtin mustprogress
 extern_weak samesign'''.split())

class P:
    """token cursor"""
    def __init__(s, mod, toks): s.m = mod; s.t = toks; s.i = 0
    def peek(s, k=0):
        j = s.i+k
        return s.t[j] if j < len(s.t) else (None, None)
    def val(s): return s.peek()[1]
    def next(s):
        r = s.t[s.i]; s.i += 1; return r
    def eat(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v and s.t[s.i][0] in ('p', 'word', 'dots'): s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v): raise Undecided('IR parse: expected %s near %s' % (v, s.t[max(0, s.i-3):s.i+4]))
    def attrs(s):
        """skip parameter/function attributes"""
        while s.i < len(s.t):
            k, v = s.t[s.i]
            if k == 'word' and v in PARAM_ATTRS: s.i += 1
            elif k == 'word' and v in ('align', 'addrspace', 'unnamed_addr'):
                s.i += 1
                if s.val() == '(': s.skip_paren()
                elif s.peek()[0] == 'int': s.i += 1
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                                       'inalloca', 'preallocated', 'memory', 'allocsize', 'captures', 'range', 'nofpclass', 'inrange', 'initializes', 'alignstack'):
                s.i += 1
                if s.val() == '(': s.skip_paren()
            elif k == 'grp' or k == 'str': s.i += 1
            else: break
    def skip_paren(s):
        d = 0
        while True:
            k, v = s.next()
            if v == '(' and k == 'p': d += 1
            elif v == ')' and k == 'p':
                d -= 1
                if d == 0: return
    def type(s):
        k, v = s.next()
        if k == 'word':
            if v == 'ptr': t = PTR
            elif v == 'double': t = DBL
            elif v == 'void': t = VOID
            elif v == 'float': t = FLT
            elif v == 'x86_fp80': t = F80
            elif v[0] == 'i' and v[1:].isdigit(): t = ity(int(v[1:]))
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = OPAQ
            else: raise Undecided('IR type ' + v)
        elif k == 'loc': t = s.m.named(cleanname(v))
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); el = s.type(); s.expect(']')
            t = T('arr'); t.n = n; t.el = el
        elif v == '{':
            t = s.struct_body('}', False)
        elif v == '<':
            if s.val() == '{':
                s.next(); t = s.struct_body('}', True); s.expect('>')
            else:
                n = int(s.next()[1]); s.expect('x'); el = s.type(); s.expect('>')
                t = T('vec'); t.n = n; t.el = el
        else: raise Undecided('IR type token %s' % v)
        while s.val() == '(' and s.peek()[0] == 'p' and s.m.fnty_ok:
            # function type
            s.skip_paren(); f = T('fn'); f.el = t; t = f
        return t
    def struct_body(s, close, packed):
        t = T('struct'); t.packed = packed; el = []
        while not s.eat(close):
            el.append(s.type()); s.eat(',')
        t.el = el
        return t
    # ---- constants / operands. returns ('r', name) for locals, ('c', value), ('g', name), ('ce', ...)
    def operand(s, ty):
        k, v = s.next()
        if k == 'loc': return ('r', cleanname(v))
        if k == 'glo': return ('g', cleanname(v))
        if k == 'int':
            if ty.k in ('double', 'float'): return ('c', literal(float(v)))
            n = int(v); return ('c', n & ((1 << ty.n)-1) if ty.k == 'i' else n)
        if k == 'flt': return ('c', literal(float(v)))
        if k == 'hex':
            if v[2] == 'K': return ('c', NAN)
            d = struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0]
            return ('c', literal(d))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('c', 0)
            if v in ('undef', 'poison'): return ('undef', ty)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'none': return ('c', 0)
            if v == 'splat': raise Undecided('vector constant')
            if v == 'getelementptr':
                s.attrs(); s.expect('('); 
                while s.eat('inbounds') or s.eat('inrange'): pass
                s.attrs(); bt = s.type(); s.expect(',')
                ops = []
                while True:
                    s.attrs(); t = s.type(); s.attrs(); ops.append((t, s.operand(t)))
                    if not s.eat(','): break
                s.expect(')')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.expect('('); t = s.type(); o = s.operand(t); s.expect('to'); t2 = s.type(); s.expect(')')
                return ('cast', v, t, o, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                s.attrs(); s.expect('('); t = s.type(); a = s.operand(t); s.expect(','); t2 = s.type(); b = s.operand(t2); s.expect(')')
                return ('bin', v, t, a, b)
            if v == 'icmp': raise Undecided('constant icmp')
            if v == 'dso_local_equivalent' or v == 'no_cfi': return s.operand(ty)
            raise Undecided('IR constant ' + v)
        if k == 'cstr': return ('bytes', unesc(v[2:-1]))
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and s.val() == '{': s.next(); close = '}'
            el = []
            while not s.eat(close):
                t = s.type(); s.attrs(); el.append((t, s.operand(t))); s.eat(',')
            if v == '<' and close == '}': s.expect('>')
            return ('agg', ty, el)
        if k == 'md':
            return ('c', 0)
        raise Undecided('IR operand %s %s' % (k, v))

class Func:
    __slots__ = ('name', 'ret', 'params', 'varargs', 'lines', 'code', 'nregs', 'isdecl', 'mod', 'addr', 'dem', 'cfg', 'hdr')

class Module:
    def __init__(self):
        self.types = {}; self.typedefs = {}
        self.globals = {}      # name -> (type, initop or None, const)
        self.funcs = {}
        self.aliases = {}
        self.fnty_ok = True
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = T('named'); t.name = n; self.types[n] = t
        return t
    def res(self, t):
        while t.k == 'named':
            if t.el is None:
                src = self.typedefs.get(t.name)
                if src is None: raise Undecided('type ' + t.name)
                t.el = P(self, tokenize(src)).type()
            t = t.el
        return t
    def sizeof(self, t):
        if t.size is not None: return t.size
        r = self.res(t)
        if r is not t:
            t.size = self.sizeof(r); t.align = r.align; return t.size
        if t.k == 'arr' or t.k == 'vec':
            t.size = t.n*self.sizeof(t.el); t.align = self.alignof(t.el)
        elif t.k == 'struct':
            o = 0; al = 1; offs = []
            for e in t.el:
                sz = self.sizeof(e); a = 1 if t.packed else self.alignof(e)
                o = (o+a-1)//a*a; offs.append(o); o += sz; al = max(al, a)
            t.offs = offs; t.size = (o+al-1)//al*al; t.align = al
        elif t.k == 'fn': t.size = 8; t.align = 8
        else: raise Undecided('sizeof ' + t.k)
        return t.size
    def alignof(self, t):
        self.sizeof(t); return t.align
    def load(self, path):
        cur = None
        GL = re.compile(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = ')
        fname = re.compile(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(')
        with open(path) as fh:
            for line in fh:
                if cur is not None:
                    if line.startswith('}'): cur = None
                    else: cur.lines.append(line)
                    continue
                c = line[:1]
                if c == '%':
                    a, b = line.split(' = type ', 1)
                    self.typedefs[cleanname(a.strip())] = b.strip()
                elif c == '@':
                    m = GL.match(line)
                    name = cleanname(m.group(1)); rest = line[m.end():]
                    if re.search(r'(^|\s)alias ', rest.split('"')[0][:200]):
                        mm = re.findall(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)', rest)
                        self.aliases[name] = cleanname(mm[-1])
                    else:
                        self.globals[name] = rest.rstrip('\n')
                elif line.startswith('define') or line.startswith('declare'):
                    m = fname.search(line)
                    f = Func(); f.name = cleanname(m.group(1)); f.lines = []; f.code = None; f.mod = self
                    f.isdecl = line.startswith('declare')
                    f.params = (line, m.start(), m.end())
                    f.addr = None; f.dem = None
                    self.funcs[f.name] = f
                    if not f.isdecl: cur = f
        return self
    def header(self, f):
        """parse the parameter list and return type of f lazily"""
        line, st, en = f.params
        toks = tokenize(line[en-1:])
        p = P(self, toks); p.expect('(')
        names = []; f.varargs = False; i = 0
        while not p.eat(')'):
            if p.eat('...'): f.varargs = True; continue
            t = p.type(); p.attrs()
            k, v = p.peek()
            if k == 'loc': nm = cleanname(v); p.next()
            else: nm = str(i)
            names.append((t, nm)); i += 1
            p.eat(',')
        pre = tokenize(line[:st]); q = P(self, pre); q.next(); 
        while True:
            q.attrs()
            k, v = q.peek()
            if k == 'word' and v in ('comdat',): q.next(); continue
            break
        self.fnty_ok = False
        f.ret = q.type(); self.fnty_ok = True
        return names
