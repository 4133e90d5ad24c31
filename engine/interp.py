"""Symbolic executor for LLVM IR: generates, path by path, the verification
conditions of a harness entry point over exact reals.

Blocks are translated to Python functions.  Memory is a flat concrete address
space of typed cells; pointers are Python ints; doubles are Fractions, special
floats or E terms.
"""
import re, struct, sys, bisect, time
from fractions import Fraction
from expr import *
import expr as X
from irparse import *

class PathEnd(Exception):
    """normal abnormal ending of a path: exit(), abort(), uncaught throw, violated assume"""
    def __init__(self, kind, info=None): self.kind = kind; self.info = info
class Thrown(Exception):
    def __init__(self, obj, ti, dtor=0): self.obj = obj; self.ti = ti
class LoopRestart(Exception):
    """re-enter a loop header with a generalised state (loop cut)"""
    def __init__(self, frame, block): self.frame = frame; self.block = block
class Fault(Exception):
    """a memory-safety / undefined-behaviour obligation failed on this path"""
    def __init__(self, what): self.what = what

def d2bits(f):
    if type(f) is Fraction: f = float(f)
    return struct.unpack('<Q', struct.pack('<d', f))[0]
def bits2d(b):
    return literal(struct.unpack('<d', struct.pack('<Q', b & (2**64-1)))[0])
def bits2f(b):
    return literal(struct.unpack('<f', struct.pack('<I', b & (2**32-1)))[0])

MAXSTEPS = 60_000_000

class PU:
    """integer with undefined bits (the tail of a bit vector)"""
    __slots__ = ('v', 'u')
    def __init__(s, v, u): s.v = v; s.u = u
def pubin(op, a, b, bits):
    m = (1 << bits)-1
    def sp(x): return (0, m) if x is UNDEF else (x.v, x.u) if type(x) is PU else (int(x), 0)
    (av, au), (bv, bu) = sp(a), sp(b)
    if op in ('shl', 'lshr'):
        if bu: return UNDEF
        v, u = ((av << bv) & m, (au << bv) & m) if op == 'shl' else (av >> bv, au >> bv)
    elif op == 'and':
        z = (~av & ~au & m) | (~bv & ~bu & m)       # known zero
        u = (au | bu) & ~z; v = av & bv & ~u
    elif op == 'or':
        o = (av & ~au) | (bv & ~bu)
        u = (au | bu) & ~o; v = (av | bv) & ~u
    else: u = au | bu; v = (av ^ bv) & ~u
    if u == 0: return v
    return UNDEF if u == m else PU(v, u)
def imultiple(x, k):
    if type(x) is int: return x % k == 0
    if x.op == 'i*': return imultiple(x.a[0], k) or imultiple(x.a[1], k)
    if x.op == 'i+': return imultiple(x.a[0], k) and imultiple(x.a[1], k)
    return False
class Machine:
    atom = False                 # an atomic access is under way (never a race)
    def __init__(self, mod):
        self.tls = []            # thread-local globals
        self.mod = mod
        self.mem = {}
        self.bases = []          # sorted allocation bases
        self.alloc = {}          # base -> (size, kind)
        self.top = 0x1000000000
        self.gtop = 0x10000
        self.gbases = []
        self.ginit = None        # initial cells of globals materialised after the snapshot
        self.gaddr = {}
        self.faddr = {}          # address -> Func
        self.ftop = 0x7f0000000000
        self.ext = {}            # external models: name -> python callable(M, *args)
        self.over = {}           # contract substitutions: name -> Func or callable
        self.steps = 0
        self.calls = {}          # function name -> count (functions executed)
        self.decider = None
        self.usedext = {}
        self.deadline = None
        self.eh = None
        self.frames = []
        self.log = []
    # ---------------------------------------------------------- memory
    def malloc(self, n, kind='heap', align=16):
        if kind in ('global', 'opaque'):
            b = (self.gtop + 64 + align - 1)//align*align
            self.gtop = b + max(n, 1)
            self.gbases.append(b)
            self.alloc[b] = (n, kind)
            if self.ginit is not None: self.ginit.setdefault('alloc', {})[b] = (n, kind)
            return b
        b = (self.top + 64 + align - 1)//align*align
        self.top = b + max(n, 1)
        self.bases.append(b)
        self.alloc[b] = (n, kind)
        return b
    def block(self, a):
        L = self.bases if a >= 0x1000000000 else self.gbases
        i = bisect.bisect_right(L, a) - 1
        if i < 0: return None
        b = L[i]
        sz, k = self.alloc[b]
        return (b, sz, k)
    def check(self, a, n, what):
        r = self.block(a)
        if r is None or a + n > r[0] + r[1] or r[2] == 'freed':
            if r and r[2] == 'opaque': return
            where = '' if r is None else ' (offset %d of a %s block of %d bytes)' % (a-r[0], r[2], r[1])
            raise Fault('invalid %s of %d bytes%s' % (what, n, where if a > 4096 else ' through a null pointer'))
    def free(self, a):
        if a == 0: return
        r = self.alloc.get(a)
        if r is None or r[1] != 'heap': raise Fault('free of a pointer that is not a live heap block')
        for x in range(a, a + r[0]):
            if x in self.mem: del self.mem[x]
        self.alloc[a] = (r[0], 'freed')
    def cells_at(self, a, n):
        """cells overlapping [a, a+n)"""
        out = []
        mem = self.mem
        for x in range(a-15, a):
            c = mem.get(x)
            if c is not None and x + c[0] > a: out.append(x)
        for x in range(a, a+n):
            if x in mem: out.append(x)
        return out
    def tobytes(self, v, n):
        if type(v) is int or type(v) is bool: return (int(v) & ((1 << (8*n))-1)).to_bytes(n, 'little')
        if type(v) in (Fraction, float) and n == 8: return d2bits(v).to_bytes(8, 'little')
        return None
    def explode(self, x):
        n, v = self.mem[x]
        if n == 1: return True
        b = self.tobytes(v, n)
        del self.mem[x]
        if b is None: return False
        for i in range(n): self.mem[x+i] = (1, b[i])
        return True
    def store(self, a, n, v):
        if type(a) is not int: a = self.cptr(a)
        mem = self.mem
        c = mem.get(a)
        if c is None or c[0] != n:
            self.check(a, n, 'write')
            for x in self.cells_at(a, n):
                m = mem[x][0]
                if x >= a and x+m <= a+n: del mem[x]
                else:
                    ok = self.explode(x)
                    for y in range(max(x, a), min(x+m, a+n)):
                        mem.pop(y, None)
        mem[a] = (n, v)
    def load(self, a, n):
        if type(a) is not int: a = self.cptr(a)
        c = self.mem.get(a)
        if c is not None and c[0] == n: return c[1]
        self.check(a, n, 'read')
        if c is not None and c[0] > n and type(c[1]) in (int, bool):
            return c[1] & ((1 << (8*n))-1)
        # compose from bytes
        bs = 0; got = 0
        for x in self.cells_at(a, n):
            m, v = self.mem[x]
            b = self.tobytes(v, m)
            if b is None: 
                if v is UNDEF: return UNDEF
                raise Undecided('partial read of a symbolic cell (%s %s) at size %d' % (m, v, n))
            for i in range(m):
                y = x+i
                if a <= y < a+n: bs |= b[i] << (8*(y-a)); got += 1
        if got == 0: return UNDEF
        if got < n:
            # padding bytes read together with data
            return bs
        return bs
    def loadd(self, a):
        v = self.load(a, 8)
        if type(v) is int: return bits2d(v)
        return v
    def loadf(self, a):
        v = self.load(a, 4)
        if type(v) is int: return bits2f(v)
        return v
    def storef(self, a, v):
        self.store(a, 4, v)
    def memcpy(self, d, s, n):
        d = self.cptr(d); s = self.cptr(s); n = self.cint(n)
        if n == 0 or d == s: return
        self.check(s, n, 'read'); self.check(d, n, 'write')
        mem = self.mem
        for x in range(s-15, s):
            c = mem.get(x)
            if c is not None and x + c[0] > s: self.explode(x)
        cells = []
        x = s; end = s+n
        while x < end:
            c = mem.get(x)
            if c is None: x += 1; continue
            if x + c[0] > end:
                if not self.explode(x): raise Undecided('partial copy of a symbolic cell')
                c = mem[x]
            cells.append((x-s, c)); x += c[0]
        for x in self.cells_at(d, n):
            m = mem[x][0]
            if x >= d and x+m <= d+n: del mem[x]
            else:
                self.explode(x)
                for y in range(max(x, d), min(x+m, d+n)): mem.pop(y, None)
        for o, c in cells: mem[d+o] = c
    def memset(self, d, v, n):
        d = self.cptr(d); n = self.cint(n); v = self.cint(v) & 255
        if n == 0: return
        self.check(d, n, 'write')
        mem = self.mem
        for x in self.cells_at(d, n):
            m = mem[x][0]
            if x >= d and x+m <= d+n: del mem[x]
            else:
                self.explode(x)
                for y in range(max(x, d), min(x+m, d+n)): mem.pop(y, None)
        x = d
        w = int.from_bytes(bytes([v])*8, 'little')
        while x < d+n:
            if x % 8 == 0 and x+8 <= d+n: mem[x] = (8, w); x += 8
            else: mem[x] = (1, v); x += 1
    def cstr(self, a):
        out = bytearray()
        while True:
            c = self.load(a+len(out), 1)
            if type(c) is not int: raise Undecided('symbolic string')
            if c == 0: return out.decode('utf8', 'replace')
            out.append(c)
    # ---------------------------------------------------------- concretisation
    def cint(self, v):
        """make an integer concrete, forking where it is a symbolic boolean"""
        if type(v) is int: return v
        if type(v) is bool: return int(v)
        if type(v) is Fraction or type(v) is float: return d2bits(v)
        if v is UNDEF or type(v) is PU: raise Undecided('use of an uninitialised value')
        if v.op == 'b2i': return 1 if self.decide(v.a[0]) else 0
        if v.op == 'ite':
            return self.cint(v.a[1] if self.decide(v.a[0]) else v.a[2])
        if v.op in ('lt', 'le', 'eq', 'not', 'and', 'or', 'ilt', 'ile', 'ieq', 'bv'): return 1 if self.decide(v) else 0
        if v.op == 'i+': return self.cint(v.a[0]) + self.cint(v.a[1])
        raise Undecided('symbolic integer %s' % show(v, 3))
    def cptr(self, v):
        if type(v) is int: return v
        return self.cint(v)
    def decide(self, c):
        if c is True or c is False: return c
        if type(c) is int: return bool(c)
        if c is UNDEF or type(c) is PU: raise Undecided('branch on an uninitialised value')
        if type(c) is E and c.op == 'b2i': c = c.a[0]
        return self.decider(c)
    # ---------------------------------------------------------- integer ops
    def ibin(self, op, a, b, bits):
        ta = type(a); tb = type(b)
        if bits == 1 and (ta is E or tb is E):
            if op == 'and' : return band(a, b)
            if op == 'or': return bor(a, b)
            if op == 'xor':
                if tb is not E: return bnot(a) if b else a
                if ta is not E: return bnot(b) if a else b
                return bor(band(a, bnot(b)), band(bnot(a), b))
        if a is UNDEF or b is UNDEF or ta is PU or tb is PU:
            if op in ('and', 'or', 'xor', 'shl', 'lshr') and ta is not E and tb is not E: return pubin(op, a, b, bits)
            return UNDEF
        if ta is E or tb is E:
            r = self.ibinsym(op, a, b, bits)
            if r is not None: return r
        a = self.cint(a); b = self.cint(b)
        m = (1 << bits)-1
        if op == 'add': return (a+b) & m
        if op == 'sub': return (a-b) & m
        if op == 'mul': return (a*b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < bits else 0
        if op == 'lshr': return a >> b if b < bits else 0
        s = 1 << (bits-1)
        sa = a - (1 << bits) if a & s else a
        sb = b - (1 << bits) if b & s else b
        if op == 'ashr': return (sa >> min(b, bits-1)) & m
        if op in ('sdiv', 'udiv', 'srem', 'urem') and b == 0: raise Fault('integer division by zero')
        if op == 'udiv': return a//b
        if op == 'urem': return a % b
        q = abs(sa)//abs(sb)
        if (sa < 0) != (sb < 0): q = -q
        if op == 'sdiv': return q & m
        if op == 'srem': return (sa - q*sb) & m
        raise Undecided('integer op ' + op)
    def ibinsym(self, op, a, b, bits):
        if op == 'shl' and type(b) is int and b < 16: op = 'mul'; b = 1 << b
        if op == 'or':
            if type(a) is int: a, b = b, a
            if type(b) is int and type(a) is E and a.op in ('i+', 'i*') and 0 <= b < 64:
                k = 1 << b.bit_length()
                if imultiple(a, k): op = 'add'
        if op in ('add', 'sub', 'mul') and all(type(x) is int or type(x) is E and x.op in ('iv', 'i+', 'i*') for x in (a, b)):
            # counters: mathematical integers (no overflow)
            a = self.sg(a, bits); b = self.sg(b, bits)
            return iadd(a, b) if op == 'add' else isub(a, b) if op == 'sub' else imul(a, b)
        if op == 'and':
            # masking a symbolic boolean
            if type(a) is E and a.op == 'b2i' and type(b) is int: return a if b & 1 else 0
            if type(b) is E and b.op == 'b2i' and type(a) is int: return b if a & 1 else 0
            if type(a) is E and type(b) is E and a.op == 'b2i' and b.op == 'b2i': return mk('b2i', band(a.a[0], b.a[0]))
        if op == 'or' and type(a) is E and type(b) is E and a.op == 'b2i' and b.op == 'b2i':
            return mk('b2i', bor(a.a[0], b.a[0]))
        if op == 'xor' and type(a) is E and a.op == 'b2i' and b == 1: return mk('b2i', bnot(a.a[0]))
        return None
    def sg(self, a, bits): return a - (1 << bits) if type(a) is int and a >> (bits-1) else a
    def i2real(self, v):
        if type(v) is int: return Fraction(v)
        if v.op == 'iv': return var(v.a[0])
        x, y = self.i2real(v.a[0]), self.i2real(v.a[1])
        return add(x, y) if v.op == 'i+' else mul(x, y)
    def icmp(self, pred, a, b, bits):
        ta = type(a); tb = type(b)
        if ta is int and tb is int:
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            if pred[0] == 's':
                s = 1 << (bits-1); a = (a ^ s); b = (b ^ s)
            p = pred[1:]
            return a < b if p == 'lt' else a > b if p == 'gt' else a <= b if p == 'le' else a >= b
        if a is UNDEF or b is UNDEF or ta is PU or tb is PU: return UNDEF
        if ta is bool: a = int(a); ta = int
        if tb is bool: b = int(b); tb = int
        if (ta is E and a.op in ('iv', 'i+', 'i*')) or (tb is E and b.op in ('iv', 'i+', 'i*')):
            x = self.i2real(self.sg(a, bits)); y = self.i2real(self.sg(b, bits))
            if pred == 'eq': return cmp('eq', x, y)
            if pred == 'ne': return bnot(cmp('eq', x, y))
            p = pred[1:]
            return cmp(p, x, y) if p in ('lt', 'le') else cmp('lt', y, x) if p == 'gt' else cmp('le', y, x)
        if bits == 1 and ta is E and tb is int:
            v = a
            if pred == 'eq': return v if b else bnot(v)
            if pred == 'ne': return bnot(v) if b else v
        if ta is E and tb is int and a.op == 'b2i':
            if pred in ('eq', 'ne'):
                if b == 0: r = bnot(a.a[0])
                elif b == 1: r = a.a[0]
                else: r = False
                return r if pred == 'eq' else bnot(r)
        # bit patterns of symbolic doubles: sign test
        if ta is E and a.op not in ('b2i', 'iv', 'i+', 'i*') and tb is int and bits == 64:
            if pred == 'slt' and b == 0: return cmp('lt', a, ZERO)
            if pred == 'sgt' and b == 2**64-1: return cmp('le', ZERO, a)
        return self.icmp(pred, self.cint(a), self.cint(b), bits)
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        nan = (type(a) is float and a != a) or (type(b) is float and b != b)
        if pred == 'ord': return not nan
        if pred == 'uno': return nan
        if pred == 'true': return True
        if pred == 'false': return False
        if nan: return pred[0] == 'u'
        p = pred[1:]
        if p == 'lt': return cmp('lt', a, b)
        if p == 'le': return cmp('le', a, b)
        if p == 'gt': return cmp('lt', b, a)
        if p == 'ge': return cmp('le', b, a)
        if p == 'eq': return cmp('eq', a, b)
        if p == 'ne': return bnot(cmp('eq', a, b))
        raise Undecided('fcmp ' + pred)
    def select(self, c, a, b, isbool):
        tc = type(c)
        if tc is bool or tc is int: return a if c else b
        if c is UNDEF: return a if a is b else UNDEF
        if a is b: return a
        if isbool:
            return bor(band(c, a), band(bnot(c), b))
        ta = type(a); tb = type(b)
        if (ta in (Fraction, float, E) and tb in (Fraction, float, E)) and not (ta is E and a.op in ('b2i', 'iv', 'i+')) :
            if ta is float or tb is float: return a if self.decide(c) else b
            return ite(c, a, b)
        if ta is int and tb is int:
            if a == b: return a
            if a == 1 and b == 0: return mk('b2i', c)
            if a == 0 and b == 1: return mk('b2i', bnot(c))
        return a if self.decide(c) else b
    def zext(self, v, fb, tb):
        if type(v) is int or type(v) is bool: return int(v)
        if v is UNDEF or type(v) is PU: return UNDEF
        if fb == 1 and type(v) is E and v.op != 'b2i': return mk('b2i', v)
        return v
    def sext(self, v, fb, tb):
        if type(v) is E and v.op in ('iv', 'i+', 'i*'): return v
        if type(v) is E: v = self.cint(v)
        if v is UNDEF or type(v) is PU: return UNDEF
        v = int(v)
        if v & (1 << (fb-1)): v |= ((1 << tb)-1) ^ ((1 << fb)-1)
        return v
    def trunc(self, v, fb, tb):
        if type(v) is int: return v & ((1 << tb)-1)
        if v is UNDEF or type(v) is PU: return UNDEF
        if type(v) is PU: return pubin('and', v, (1 << tb)-1, fb)
        if type(v) is E:
            if v.op == 'b2i': return v.a[0] if tb == 1 else v
            if v.op in ('iv', 'i+', 'i*') and tb >= 32: return v
        return self.cint(v) & ((1 << tb)-1)
    def tofp(self, v, bits, signed):
        if v is UNDEF: return UNDEF
        if type(v) is E:
            if v.op == 'b2i': return ite(v.a[0], ONE, ZERO)
            if v.op in ('iv', 'i+', 'i*'): return self.i2real(v)
        v = self.cint(v)
        if signed and v & (1 << (bits-1)): v -= 1 << bits
        return Fraction(v)
    def toint(self, v, bits):
        if v is UNDEF: return UNDEF
        if type(v) is Fraction:
            q = abs(v.numerator)//v.denominator
            if v < 0: q = -q
            return q & ((1 << bits)-1)
        if type(v) is E and v.op == 'ite':
            return self.toint(v.a[1] if self.decide(v.a[0]) else v.a[2], bits)
        if type(v) is E and v.op == 'i2r': return v.a[0]
        raise Undecided('conversion of a symbolic real to an integer')
    # ---------------------------------------------------------- globals
    def resolve(self, n):
        seen = 0
        while n in self.mod.aliases and seen < 8: n = self.mod.aliases[n]; seen += 1
        return n
    def globaddr(self, n):
        n = self.resolve(n)
        a = self.gaddr.get(n)
        if a is not None: return a
        f = self.mod.funcs.get(n)
        if f is not None:
            self.ftop += 16
            a = self.ftop; f.addr = a; self.faddr[a] = f; self.gaddr[n] = a
            return a
        raw = self.mod.globals.get(n)
        if raw is None: raise Undecided('unknown global ' + n)
        raw = re.split(r', (?:align \d+|comdat|section|!dbg|!|#)', raw + ' ', maxsplit=0)[0] if '"' not in raw else raw
        p = P(self.mod, tokenize(raw))
        isext = False; tls = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('external', 'extern_weak', 'available_externally'):
                if v != 'available_externally': isext = True
                p.next(); continue
            if k == 'word' and v == 'global': p.next(); break
            if k == 'word' and v == 'constant': p.next(); break
            if k == 'word' and v == 'thread_local':
                p.next(); tls = True
                if p.val() == '(': p.skip_paren()
                continue
            if k == 'word': p.next(); continue
            raise Undecided('global header ' + raw[:80])
        t = p.type()
        if isext:
            if n in ('_ZTVN10__cxxabiv117__class_type_infoE',): pass
            try: sz = self.mod.sizeof(t)
            except Undecided: sz = 8
            a = self.malloc(max(sz, 512), 'opaque'); self.gaddr[n] = a
            if n == '__dso_handle': pass
            return a
        a = self.malloc(self.mod.sizeof(t), 'global', max(16, self.mod.alignof(t)))
        self.gaddr[n] = a
        if tls: self.tls.append((a, a + self.mod.sizeof(t)))
        k, v = p.peek()
        self.initmem(a, t, p.operand(t))
        if self.ginit is not None:
            gi = self.ginit.setdefault('mem', {})
            for x in range(a, a+self.mod.sizeof(t)):
                c = self.mem.get(x)
                if c is not None: gi[x] = c
        return a
    def initmem(self, a, t, o):
        t = self.mod.res(t)
        sz = self.mod.sizeof(t)
        k = o[0]
        if k == 'zero': Machine.memset(self, a, 0, sz); return
        if k == 'undef': return
        if k == 'bytes':
            for i, b in enumerate(o[1]): self.mem[a+i] = (1, b)
            return
        if k == 'agg':
            if t.k == 'arr':
                es = self.mod.sizeof(t.el)
                for i, (et, eo) in enumerate(o[2]): self.initmem(a+i*es, et, eo)
            else:
                for i, (et, eo) in enumerate(o[2]): self.initmem(a+t.offs[i], et, eo)
            return
        v = self.constval(t, o)
        Machine.store(self, a, sz, v)
    def constval(self, t, o):
        k = o[0]
        if k == 'c': return o[1]
        if k == 'g': return self.globaddr(o[1])
        if k == 'undef': 
            r = self.mod.res(t)
            if r.k == 'struct': return tuple(UNDEF for _ in r.el)
            return UNDEF
        if k == 'zero':
            r = self.mod.res(t)
            if r.k == 'double' or r.k == 'float': return ZERO
            if r.k in ('struct',): return tuple(self.constval(e, ('zero', e)) for e in r.el)
            if r.k in ('arr',): return tuple(self.constval(r.el, ('zero', r.el)) for _ in range(r.n))
            return 0
        if k == 'gep':
            bt, ops = o[1], o[2]
            a = self.constval(ops[0][0], ops[0][1])
            return (a + self.gepconst(bt, [self.constval(tt, oo) for tt, oo in ops[1:]], [tt for tt, oo in ops[1:]])) & (2**64-1)
        if k == 'cast':
            v = self.constval(o[2], o[3])
            if o[1] == 'trunc': return v & ((1 << o[4].n)-1)
            return v
        if k == 'bin':
            return self.ibin(o[1], self.constval(o[2], o[3]), self.constval(o[2], o[4]), o[2].n)
        if k == 'agg':
            return tuple(self.constval(et, eo) for et, eo in o[2])
        if k == 'bytes':
            return tuple(o[1])
        raise Undecided('constant ' + k)
    def gepconst(self, bt, idx, tys):
        off = 0; t = bt
        for j, i in enumerate(idx):
            n = tys[j].n if tys[j].k == 'i' else 64
            if i & (1 << (n-1)): i -= 1 << n
            if j == 0: off += i*self.mod.sizeof(t); continue
            t = self.mod.res(t)
            if t.k == 'struct':
                self.mod.sizeof(t); off += t.offs[i]; t = t.el[i]
            else:
                off += i*self.mod.sizeof(t.el); t = t.el
        return off
    # ---------------------------------------------------------- calls
    def callname(self, name, args):
        ov = self.over.get(name)
        if ov is not None:
            return ov(self, *args) if callable(ov) else self.callf(ov, args)
        n = self.resolve(name)
        f = self.mod.funcs.get(n)
        if f is not None and not f.isdecl: return self.callf(f, args)
        h = self.ext.get(name)
        if h is None: h = self.findext(name)
        self.usedext[name] = self.usedext.get(name, 0)+1
        return h(self, *args)
    def findext(self, name):
        raise Undecided('no model of external function ' + name)
    def callptr(self, a, args):
        a = self.cint(a)
        f = self.faddr.get(a)
        if f is None: raise Fault('call through an invalid function pointer')
        return self.callname(f.name, args)
    def callf(self, f, args):
        code = f.code
        if code is None: code = self.compile(f)
        self.calls[f.name] = self.calls.get(f.name, 0)+1
        nregs, blocks, params, defs = code
        R = defs[:] 
        n = len(params)
        R[1:1+n] = args[:n] if len(args) > n else list(args)
        if len(args) > n: R.append(args[n:])
        b = 0
        cnt = 0
        fr = [f, R, 0, None]
        frames = self.frames
        frames.append(fr)
        depth = len(frames)
        try:
          while b >= 0:
            fr[2] = b
            try: b = blocks[b](R, self)
            except LoopRestart as ex:
                if ex.frame is not fr: raise
                b = ex.block
                del frames[depth:]
            cnt += 1
            if not cnt & 1023:
                self.steps += 1024
                if self.steps > MAXSTEPS: raise Undecided('step limit')
                if self.deadline and time.time() > self.deadline: raise Undecided('time limit in symbolic execution')
        finally: del frames[depth-1:]
        return R[0]
    # ---------------------------------------------------------- translation
    def compile(self, f):
        mod = self.mod
        params = mod.header(f)
        reg = {}
        for t, n in params: reg[n] = len(reg)+1
        # split into blocks
        blocks = []; cur = None
        lines = []
        buf = None
        for ln in f.lines:
            s = ln.strip()
            if not s or s[0] == ';': continue
            if buf is not None:
                buf += ' ' + s
                if buf.startswith('switch'):
                    if s.startswith(']'): lines.append(buf); buf = None
                continue
            if s.startswith('switch ') and not s.rstrip().endswith(']') and ']' not in s.split('[',1)[-1]:
                buf = s; continue
            lines.append(s)
        # join multi-line landingpad / invoke
        out = []
        for s in lines:
            if s.startswith('to label') or s.startswith('catch ') or s.startswith('cleanup') or s.startswith('filter '):
                out[-1] += ' ' + s
            else: out.append(s)
        lines = out
        LB = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):')
        first = True
        for s in lines:
            m = LB.match(s)
            if m:
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                cur = (nm, []); blocks.append(cur); first = False; continue
            if first:
                cur = (str(len(params)), []); blocks.append(cur); first = False
            cur[1].append(s)
        bidx = {b[0]: i for i, b in enumerate(blocks)}
        # parse instructions
        parsed = []
        def regof(n):
            r = reg.get(n)
            if r is None: r = len(reg)+1; reg[n] = r
            return r
        K = []
        phis = {}
        for bn, ins in blocks:
            L = []
            for s in ins:
                i = s.find(', !')
                if i > 0 and '"' not in s[i:]: s = s[:i]
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = ', s)
                dst = None
                if m: dst = cleanname(m.group(1)); s2 = s[m.end():]
                else: s2 = s
                toks = tokenize(s2)
                L.append((dst, toks, s))
            parsed.append((bn, L))
        for bn, L in parsed:
            ph = []
            for dst, toks, s in L:
                if toks[0][1] == 'phi':
                    p = P(mod, toks); p.next(); p.attrs(); t = p.type()
                    inc = {}
                    while True:
                        p.expect('['); o = p.operand(t); p.expect(','); l = cleanname(p.next()[1]); p.expect(']')
                        inc[l] = (t, o)
                        if not p.eat(','): break
                    ph.append((dst, inc))
                else: break
            phis[bn] = ph
        M = self
        def op(t, o):
            if o[0] == 'r': return 'R[%d]' % regof(o[1])
            v = M.constval(t, o)
            if type(v) is int and -10 < v < 2**63: return repr(v)
            K.append(v); return 'K[%d]' % (len(K)-1)
        succ = {}
        def goto(frm, to, ind):
            succ.setdefault(bidx[frm], set()).add(bidx[to])
            ph = phis[to]
            code = ''
            if ph:
                l = []; r = []
                for dst, inc in ph:
                    t, o = inc[frm]
                    l.append('R[%d]' % regof(dst)); r.append(op(t, o))
                code = ind + '%s = %s\n' % (', '.join(l), ', '.join(r))
            return code + ind + 'return %d\n' % bidx[to]
        src = []
        for bi, (bn, L) in enumerate(parsed):
            body = []
            for dst, toks, s in L:
                if toks[0][1] == 'phi': continue
                try:
                    body.append(self.gen(dst, toks, s, op, regof, K, goto, bn, mod))
                except Undecided as ex:
                    K.append('%s in: %s' % (ex, s[:150]))
                    body.append('  raise Undecided(K[%d])\n' % (len(K)-1)); break
            src.append('def b%d(R, M):\n%s' % (bi, ''.join(body) or '  pass\n'))
        env = dict(GLOB); env['K'] = K
        text = '\n'.join(src)
        exec(compile(text, '<%s>' % f.name[:60], 'exec'), env)
        for b_, ph_ in phis.items():
            for d_, i_ in ph_: regof(d_)
        nregs = len(reg)+1
        defs = [None]*nregs
        f.cfg = (succ, {bidx[b]: [(regof(d), next(iter(inc.values()))[0]) for d, inc in ph] for b, ph in phis.items()})
        f.code = (nregs, [env['b%d' % i] for i in range(len(parsed))], params, defs)
        return f.code
    def gen(self, dst, toks, s, op, regof, K, goto, bn, mod):
        p = P(mod, toks)
        w = p.next()[1]
        D = 'R[%d]' % regof(dst) if dst is not None else None
        def tv():
            p.attrs(); t = p.type(); p.attrs(); o = p.operand(t); return t, op(t, o)
        def kk(v): K.append(v); return 'K[%d]' % (len(K)-1)
        if w == 'load':
            p.attrs()
            if p.eat('atomic'):
                p.attrs(); t = p.type(); p.expect(','); pt = p.type(); a = op(pt, p.operand(pt)); r = mod.res(t)
                if r.k in ('i', 'ptr', 'double') and not (r.k == 'i' and r.n == 1):
                    return '  M.atom = True\n  %s = M.%s\n  M.atom = False\n' % (D, 'loadd(%s)' % a if r.k == 'double' else 'load(%s,%d)' % (a, mod.sizeof(r)))
                raise Undecided('atomic load of ' + r.k)
            p.attrs()
            t = p.type(); p.expect(','); pt = p.type(); a = op(pt, p.operand(pt))
            r = mod.res(t)
            if r.k == 'double': return '  %s = M.loadd(%s)\n' % (D, a)
            if r.k == 'float': return '  %s = M.loadf(%s)\n' % (D, a)
            if r.k in ('i', 'ptr'):
                if r.k == 'i' and r.n == 1: return '  %s = M.trunc(M.load(%s,1),8,1)\n' % (D, a)
                return '  %s = M.load(%s,%d)\n' % (D, a, mod.sizeof(r))
            if r.k == 'struct':
                mod.sizeof(r)
                parts = ['M.%s(M.cptr(%s)+%d%s)' % ('loadd' if mod.res(e).k == 'double' else 'load', a, o, '' if mod.res(e).k == 'double' else ',%d' % mod.sizeof(e)) for e, o in zip(r.el, r.offs)]
                return '  %s = (%s,)\n' % (D, ','.join(parts))
            raise Undecided('load of ' + r.k)
        if w == 'store':
            p.attrs()
            if p.eat('atomic'):
                p.attrs(); t, v = tv(); p.expect(','); pt = p.type(); a = op(pt, p.operand(pt)); r = mod.res(t)
                if r.k not in ('i', 'ptr', 'double'): raise Undecided('atomic store of ' + r.k)
                return '  M.atom = True\n  M.store(%s,%d,%s)\n  M.atom = False\n' % (a, mod.sizeof(r), v)
            p.attrs()
            t, v = tv(); p.expect(','); pt = p.type(); a = op(pt, p.operand(pt))
            r = mod.res(t)
            if r.k == 'i' and r.n == 1: v = 'M.zext(%s,1,8)' % v
            if r.k == 'struct':
                mod.sizeof(r)
                return ''.join('  M.store(M.cptr(%s)+%d,%d,%s[%d])\n' % (a, o, mod.sizeof(e), v, i) for i, (e, o) in enumerate(zip(r.el, r.offs)))
            if r.k not in ('i', 'ptr', 'double', 'float', 'x86_fp80'): raise Undecided('store of ' + r.k)
            return '  M.store(%s,%d,%s)\n' % (a, mod.sizeof(r), v)
        if w == 'getelementptr':
            p.attrs(); bt = p.type(); p.expect(',')
            pt, base = tv()
            idx = []
            while p.eat(','):
                p.attrs(); it = p.type(); o = p.operand(it); idx.append((it, o))
            off = 0; dyn = []; t = bt
            for j, (it, o) in enumerate(idx):
                if j > 0:
                    t = mod.res(t)
                    if t.k == 'struct':
                        i = o[1]; mod.sizeof(t); off += t.offs[i]; t = t.el[i]; continue
                    t = t.el
                sz = mod.sizeof(t)
                if o[0] == 'c':
                    i = o[1]
                    if i & (1 << (it.n-1)): i -= 1 << it.n
                    off += i*sz
                else: dyn.append((op(it, o), it.n, sz))
            if not dyn:
                if off == 0: return '  %s = %s\n' % (D, base)
                return '  %s = M.gep(%s,%d)\n' % (D, base, off)
            e = '+'.join('M.sidx(%s,%d)*%d' % (x, n, sz) for x, n, sz in dyn)
            return '  %s = M.gep(%s,%d+%s)\n' % (D, base, off, e)
        if w in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.attrs(); t = p.type(); a = op(t, p.operand(t)); p.expect(','); b = op(t, p.operand(t))
            if t.k != 'double' and t.k != 'float': raise Undecided('fp op on ' + t.k)
            return '  %s = %s(%s,%s)\n' % (D, w, a, b)
        if w == 'fneg':
            t, a = tv(); return '  %s = neg(%s)\n' % (D, a)
        if w in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            p.attrs(); t = p.type(); a = op(t, p.operand(t)); p.expect(','); b = op(t, p.operand(t))
            if t.k != 'i': raise Undecided('integer op on ' + t.k)
            if w in ('add', 'sub', 'mul', 'and', 'or') and t.n > 1:
                o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|'}[w]
                return '  x=%s;y=%s\n  %s = (x%sy)&%d if type(x) is int and type(y) is int else M.ibin("%s",x,y,%d)\n' % (a, b, D, o, (1 << t.n)-1, w, t.n)
            return '  %s = M.ibin("%s",%s,%s,%d)\n' % (D, w, a, b, t.n)
        if w == 'icmp':
            p.attrs(); pred = p.next()[1]; t = p.type(); a = op(t, p.operand(t)); p.expect(','); b = op(t, p.operand(t))
            n = t.n if t.k == 'i' else 64
            return '  %s = M.icmp("%s",%s,%s,%d)\n' % (D, pred, a, b, n)
        if w == 'fcmp':
            p.attrs(); pred = p.next()[1]; t = p.type(); a = op(t, p.operand(t)); p.expect(','); b = op(t, p.operand(t))
            return '  %s = M.fcmp("%s",%s,%s)\n' % (D, pred, a, b)
        if w == 'select':
            p.attrs(); ct, c = tv(); p.expect(','); t, a = tv(); p.expect(','); t2, b = tv()
            return '  %s = M.select(%s,%s,%s,%s)\n' % (D, c, a, b, t.k == 'i' and t.n == 1)
        if w in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'freeze'):
            p.attrs(); t = p.type(); a = op(t, p.operand(t))
            if w == 'freeze': return '  %s = %s\n' % (D, a)
            p.expect('to'); t2 = p.type()
            if w == 'bitcast' and t.k != t2.k:
                if t.k == 'double' and t2.k == 'i': return '  %s = %s\n' % (D, a)
                if t.k == 'i' and t2.k == 'double': return '  %s = M.asdbl(%s)\n' % (D, a)
                raise Undecided('bitcast %s to %s' % (t.k, t2.k))
            if w in ('zext', 'sext', 'trunc'): return '  %s = M.%s(%s,%d,%d)\n' % (D, w, a, t.n, t2.n)
            if w in ('sitofp', 'uitofp'): return '  %s = M.tofp(%s,%d,%s)\n' % (D, a, t.n, w[0] == 's')
            if w in ('fptosi', 'fptoui'): return '  %s = M.toint(%s,%d)\n' % (D, a, t2.n)
            if w == 'fptrunc' : return '  %s = M.fptrunc(%s)\n' % (D, a)
            return '  %s = %s\n' % (D, a)
        if w == 'br':
            t = p.type()
            if t.k == 'label': return goto(bn, cleanname(p.next()[1]), '  ')
            c = op(t, p.operand(t)); p.expect(','); p.type(); l1 = cleanname(p.next()[1]); p.expect(','); p.type(); l2 = cleanname(p.next()[1])
            return '  c=%s\n  if c is not True and c is not False: c = M.decide(c)\n  if c:\n%s%s' % (c, goto(bn, l1, '    '), goto(bn, l2, '  '))
        if w == 'switch':
            t = p.type(); v = op(t, p.operand(t)); p.expect(','); p.type(); dflt = cleanname(p.next()[1]); p.expect('[')
            code = '  v=M.cint(%s)\n' % v
            while not p.eat(']'):
                tt = p.type(); o = p.operand(tt); p.expect(','); p.type(); l = cleanname(p.next()[1])
                code += '  if v == %d:\n%s' % (o[1], goto(bn, l, '    '))
            return code + goto(bn, dflt, '  ')
        if w == 'ret':
            t = p.type()
            if t.k == 'void': return '  R[0]=None\n  return -1\n'
            return '  R[0]=%s\n  return -1\n' % op(t, p.operand(t))
        if w == 'unreachable': return '  raise PathEnd("unreachable")\n'
        if w in ('call', 'invoke', 'tail', 'notail', 'musttail'):
            while w in ('tail', 'notail', 'musttail'): w = p.next()[1]
            inv = w == 'invoke'
            p.attrs()
            mod.fnty_ok = False; rt = p.type(); mod.fnty_ok = True
            if p.val() == '(' : p.skip_paren()
            k, v = p.peek()
            if k == 'word' and v == 'asm':
                tx = [x for x in p.t if str(x[1])[:1] == '"' or x[0] in ('str', 'cstr')]
                if tx and str(tx[0][1]).strip('"').startswith('#') and rt.k == 'void' and not inv: return '  pass\n'   # assembler comment
                raise Undecided('inline assembly %r' % (tx[:1],))
            callee = p.operand(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                t = p.type(); p.attrs()
                if t.k == 'metadata':
                    p.next(); 
                    while p.val() not in (',', ')'): p.next()
                    args.append('0')
                else: args.append(op(t, p.operand(t)))
                p.eat(',')
            if callee[0] == 'g':
                nm = callee[1]
                if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume') or nm.startswith('llvm.experimental.noalias'):
                    call = 'None'
                else: call = 'M.callname(%s,[%s])' % (kk(nm), ','.join(args))
            else:
                call = 'M.callptr(%s,[%s])' % (op(PTR, callee), ','.join(args))
            dd = '%s = ' % D if D else ''
            if not inv: return '  %s%s\n' % (dd, call)
            p.attrs(); 
            while p.val() != 'to': p.next()
            p.expect('to'); p.type(); l1 = cleanname(p.next()[1]); p.expect('unwind'); p.type(); l2 = cleanname(p.next()[1])
            return '  try:\n    %s%s\n  except Thrown as ex:\n    M.eh=ex\n%s%s' % (dd, call, goto(bn, l2, '    '), goto(bn, l1, '  '))
        if w == 'landingpad':
            t = p.type(); clauses = []
            while p.i < len(p.t):
                k, v = p.next()
                if v == 'catch':
                    tt = p.type(); clauses.append(op(tt, p.operand(tt)))
            return '  %s = M.landing([%s])\n' % (D, ','.join(clauses))
        if w == 'resume': return '  raise M.eh\n'
        if w == 'extractvalue':
            t = p.type(); a = op(t, p.operand(t)); idx = ''
            while p.eat(','): idx += '[%s]' % p.next()[1]
            return '  %s = %s%s\n' % (D, a, idx)
        if w == 'insertvalue':
            t = p.type(); a = op(t, p.operand(t)); p.expect(','); t2, v = tv(); idx = []
            while p.eat(','): idx.append(int(p.next()[1]))
            return '  %s = insval(%s,%s,%r)\n' % (D, a, v, idx)
        if w == 'alloca':
            p.attrs(); t = p.type(); n = '1'
            if p.eat(',') and p.peek()[1] != 'align':
                tt = p.type(); n = op(tt, p.operand(tt))
            return '  %s = M.malloc(%d*M.cint(%s),"stack")\n' % (D, mod.sizeof(t), n)
        if w == 'atomicrmw':
            p.attrs(); o = p.next()[1]; pt, a = tv(); p.expect(','); t, v = tv()
            return '  %s = M.atomicrmw("%s",%s,%s,%d)\n' % (D, o, a, v, t.n if t.k == 'i' else 64)
        if w == 'cmpxchg':
            p.attrs(); p.eat('weak'); p.attrs(); pt, a = tv(); p.expect(','); t, c = tv(); p.expect(','); t, v = tv()
            return '  %s = M.cmpxchg(%s,%s,%s,%d)\n' % (D, a, c, v, t.n if t.k == 'i' else 64)
        if w == 'fence': return '  pass\n'
        raise Undecided('instruction ' + w)
    def gep(self, b, off):
        if type(b) is int: return (b + off) & 0xffffffffffffffff
        if b is UNDEF: return UNDEF
        return (self.cint(b) + off) & 0xffffffffffffffff
    def sidx(self, v, n):
        if type(v) is not int: v = self.cint(v)
        return v - (1 << n) if v >> (n-1) else v
    def asdbl(self, v):
        if type(v) is int: return bits2d(v)
        return v
    def fptrunc(self, v):
        if type(v) is Fraction:
            return Fraction(struct.unpack('<f', struct.pack('<f', float(v)))[0])
        if type(v) is float or v is UNDEF: return v
        return mk('f', 'fptrunc', v)
    def atomicrmw(self, o, a, v, bits):
        self.atom = True
        old = self.load(a, bits//8)
        if o == 'xchg': new = v
        else: new = self.ibin(o, old, v, bits)
        self.store(a, bits//8, new); self.atom = False; return old
    def cmpxchg(self, a, c, v, bits):
        self.atom = True
        old = self.load(a, bits//8)
        ok = old == c
        if ok: self.store(a, bits//8, v)
        self.atom = False
        return (old, ok)
    def landing(self, clauses):
        ti = self.eh.ti
        for i, c in enumerate(clauses):
            if c == 0 or c == ti or self.isbase(ti, c): return (self.eh.obj, c if c else 1)
        return (self.eh.obj, 0)
    def isbase(self, ti, c):
        # single inheritance: walk __si_class_type_info
        for _ in range(10):
            try:
                nxt = self.load(ti+16, 8)
            except Fault: return False
            if type(nxt) is not int: 
                return 'St9exception' in self.gname(c) 
            if nxt == c: return True
            if self.block(nxt) is None: return False
            ti = nxt
        return False
    def gname(self, a):
        for n, x in self.gaddr.items():
            if x == a: return n
        return ''

def insval(a, v, idx):
    if a is UNDEF or a is None: a = ()
    a = list(a)
    while len(a) <= idx[0]: a.append(UNDEF)
    if len(idx) == 1: a[idx[0]] = v
    else: a[idx[0]] = insval(a[idx[0]], v, idx[1:])
    return tuple(a)
def frem(a, b):
    if type(a) is Fraction and type(b) is Fraction and b:
        q = a/b; n = abs(q.numerator)//q.denominator
        return a - b*(n if q > 0 else -n)
    return mk('f', 'fmod', a, b)
GLOB = dict(fadd=add, fsub=sub, fmul=mul, fdiv=div, frem=frem, neg=neg, insval=insval, PathEnd=PathEnd, Thrown=Thrown,
            Undecided=Undecided, UNDEF=UNDEF)
