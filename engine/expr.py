"""Hash-consed symbolic terms over the reals, integers and booleans.

Concrete reals are fractions.Fraction (finite) or float (nan, +-inf); concrete
integers and booleans are Python ints/bools.  Everything else is an E node.
"""
from fractions import Fraction
import math

class Undecided(Exception):
    """The engine cannot model this construct (a tool limit, never a violation)."""

class E:
    __slots__ = ('op', 'a', 'id', '__weakref__')
    def __repr__(self):
        return show(self)

_tab = {}
_cnt = 0
def mk(op, *a):
    global _cnt
    key = (op,) + tuple(x.id if type(x) is E else (x,) for x in a)
    r = _tab.get(key)
    if r is None:
        r = E(); r.op = op; r.a = a; _cnt += 1; r.id = _cnt
        _tab[key] = r
    return r

def reset_terms():
    _tab.clear()

def show(e, d=6):
    if type(e) is not E: return str(e)
    if e.op == 'v': return e.a[0]
    if d == 0: return '...'
    if e.op in ('+', '-', '*', '/', 'lt', 'le', 'eq', 'and', 'or'):
        return '(' + (' %s ' % e.op).join(show(x, d-1) for x in e.a) + ')'
    return '%s(%s)' % (e.op, ', '.join(show(x, d-1) for x in e.a))

NAN = float('nan'); INF = float('inf')
ZERO = Fraction(0); ONE = Fraction(1)
def isnum(x): return type(x) is Fraction
def isspecial(x): return type(x) is float

_lit = {}
def literal(d):
    """IEEE double -> real number it stands for: the simplest nearby fraction."""
    r = _lit.get(d)
    if r is None:
        if d != d or d in (INF, -INF): r = d
        else: r = _rationalise(d)
        if d == d: _lit[d] = r
    return r
def _rationalise(d):
    f = Fraction(d)
    if f.denominator <= 4096: return f
    tol = abs(f) * Fraction(8, 2**53)
    if 1e-4 < abs(d) < 1e4:
        g = f.limit_denominator(2000)
        if abs(g - f) <= tol: return g
    s = '%.15g' % d
    g = Fraction(s)
    if abs(g-f) <= abs(f)*Fraction(1, 2**51) and len(s.replace('-','').replace('.','').split('e')[0].strip('0')) <= 13:
        return g
    return f

class UndefT:
    def __repr__(self): return 'UNDEF'
UNDEF = UndefT()

def var(name): return mk('v', name)

def _sp(op, a, b):
    # at least one special operand
    if (isspecial(a) and a != a) or (isspecial(b) and b != b): return NAN
    if type(a) is E or type(b) is E:
        s = a if isspecial(a) else b
        if op == '+': return s
        if op == '-': return s if isspecial(a) else -s
        if op == '/' and isspecial(b): return ZERO
        raise Undecided('infinity times/over a symbolic value')
    x = float(a); y = float(b)
    if op == '+': r = x+y
    elif op == '-': r = x-y
    elif op == '*': r = x*y
    else:
        if y == 0: r = NAN if (x == 0 or x != x) else math.copysign(INF, x)
        else: r = x/y
    return r if (r != r or r in (INF, -INF)) else literal(r)

def add(a, b):
    ta = type(a); tb = type(b)
    if ta is Fraction:
        if tb is Fraction: return a+b
        if not a and tb is E: return b
    elif tb is Fraction and not b and ta is E: return a
    if ta is float or tb is float: return _sp('+', a, b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if tb is Fraction or (tb is E and ta is E and b.id < a.id): a, b = b, a
    return mk('+', a, b)
def sub(a, b):
    ta = type(a); tb = type(b)
    if ta is Fraction and tb is Fraction: return a-b
    if tb is Fraction and not b and ta is E: return a
    if ta is float or tb is float: return _sp('-', a, b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is b: return ZERO
    if ta is Fraction and not a: return mul(Fraction(-1), b)
    return mk('-', a, b)
def mul(a, b):
    ta = type(a); tb = type(b)
    if ta is Fraction:
        if tb is Fraction: return a*b
        if tb is E:
            if not a: return ZERO
            if a == 1: return b
    elif tb is Fraction and ta is E:
        if not b: return ZERO
        if b == 1: return a
        a, b = b, a
    if ta is float or tb is float: return _sp('*', a, b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is E and b.id < a.id: a, b = b, a
    return mk('*', a, b)
DENS = {}     # symbolic denominators met on the current path
def div(a, b):
    ta = type(a); tb = type(b)
    if ta is float or tb is float: return _sp('/', a, b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if tb is Fraction:
        if not b:
            if ta is Fraction: return NAN if not a else (INF if a > 0 else -INF)
            return NAN   # symbolic/0: treated as undefined
        if ta is Fraction: return a/b
        return mul(Fraction(1)/b, a)
    DENS[b.id] = b
    if ta is Fraction and not a: return ZERO
    return mk('/', a, b)
def neg(a):
    if type(a) is Fraction: return -a
    if type(a) is float: return -a
    return mul(Fraction(-1), a)
def isqrt_frac(q):
    n = math.isqrt(q.numerator); d = math.isqrt(q.denominator)
    if n*n == q.numerator and d*d == q.denominator: return Fraction(n, d)
    return None
def sqrt(a):
    if type(a) is Fraction:
        if a < 0: return NAN
        r = isqrt_frac(a)
        if r is not None: return r
        return mk('sqrt', a)
    if type(a) is float:
        return a if a != -INF else NAN
    if a is UNDEF: return UNDEF
    return mk('sqrt', a)
def nonneg(a, d=60):
    """syntactically a sum of squares / square roots"""
    if type(a) is Fraction: return a >= 0
    if type(a) is not E or d == 0: return False
    if a.op == '+': return nonneg(a.a[0], d-1) and nonneg(a.a[1], d-1)
    if a.op == '*': return a.a[0] is a.a[1] or nonneg(a.a[0], d-1) and nonneg(a.a[1], d-1)
    if a.op == '/': return nonneg(a.a[0], d-1) and nonneg(a.a[1], d-1)
    return a.op == 'sqrt'
def fabs(a):
    if type(a) is Fraction: return abs(a)
    if type(a) is float: return abs(a)
    if a is UNDEF: return UNDEF
    if nonneg(a): return a
    return ite(cmp('lt', a, ZERO), neg(a), a)
def fn(name, *args):
    return mk('f', name, *args)
def ite(c, a, b):
    if c is True or c == 1 and type(c) is int: return a
    if c is False or c == 0 and type(c) is int: return b
    if a is b or (type(a) is Fraction and type(b) is Fraction and a == b) or (type(a) is int and type(b) is int and a == b): return a
    return mk('ite', c, a, b)

# --- booleans: python bool or E
def cmp(op, a, b):
    """op in lt, le, eq over reals"""
    ta = type(a); tb = type(b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if ta is not E and tb is not E:
        if ta is float or tb is float:
            a = float(a); b = float(b)
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
    if ta is float or tb is float:
        s = a if ta is float else b
        if s != s: return False
        if op == 'eq': return False
        # finite symbolic against +-inf
        return (s > 0) if tb is float else (s < 0)
    if a is b: return op != 'lt'
    if op == 'eq' and (ta is Fraction or (tb is E and b.id < a.id)): a, b = b, a
    return mk(op, a, b)
def bnot(c):
    if type(c) in (bool, int): return not c
    if c is UNDEF: return UNDEF
    if c.op == 'not': return c.a[0]
    return mk('not', c)
def band(a, b):
    if type(a) in (bool, int): return b if a else False
    if type(b) in (bool, int): return a if b else False
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is b: return a
    return mk('and', a, b)
def bor(a, b):
    if type(a) in (bool, int): return True if a else b
    if type(b) in (bool, int): return True if b else a
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is b: return a
    return mk('or', a, b)

# --- mathematical integers
def isint(x): return type(x) is int or type(x) is bool
def ivar(name): return mk('iv', name)
def iadd(a, b):
    if isint(a) and isint(b): return a+b
    if isint(a) and a == 0: return b
    if isint(b) and b == 0: return a
    if type(a) is E and a.op == 'i+' and isint(b) and isint(a.a[1]): return iadd(a.a[0], a.a[1]+b)
    if isint(a): a, b = b, a
    return mk('i+', a, b)
def imul(a, b):
    if isint(a) and isint(b): return a*b
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return 0
        if b == 1: return a
        if a.op == 'i+' : return iadd(imul(a.a[0], b), imul(a.a[1], b))
        if a.op == 'i*' and isint(a.a[1]): return imul(a.a[0], a.a[1]*b)
    return mk('i*', a, b)
def isub(a, b): return iadd(a, imul(b, -1)) if a is not b else 0
def icmp(op, a, b):
    if isint(a) and isint(b):
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
    if a is b: return op != 'lt'
    return mk('i'+op, a, b)
