"""Assumed models (trusted contracts) of external functions."""
import re, math
from fractions import Fraction
from expr import *
import expr as X
from interp import *

EXT = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d
# iostream & friends: output is not modelled; calls are no-ops that return their first argument
NOOP = re.compile(r'^(_ZN5Eigenls|_ZN5Eigen8internal12print_matrix|_ZStls|_ZStrs|_ZSt4endl|_ZSt5flush|_ZSt4ends|_ZNSo|_ZNSi|_ZNKSo|_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNSt8ios_base|_ZNKSt8ios_base|'
    r'_ZNSt14basic_ofstream|_ZNSt14basic_ifstream|_ZNSt13basic_f|_ZNSt13basic_o|_ZNSt14basic_i|_ZNSt13basic_filebuf|_ZNSt15basic_streambuf|_ZSt16__ostream_insert|_ZNSt6locale|_ZNKSt6locale|'
    r'_ZNSt7__cxx1118basic_stringstream|_ZNSt7__cxx1119basic_ostringstream|_ZNSt7__cxx1119basic_istringstream|_ZNSt7__cxx1115basic_stringbuf|_ZNKSt7__cxx1118basic_stringstream|_ZNKSt7__cxx1119basic_ostringstream|'
    r'_ZStlsI|_ZSt7setfill|_ZSt12setprecision|_ZSt4setw|_ZSt9use_facet|_ZNKSt5ctype|_ZSt7getlineI|_ZNSirsE|_ZNSolsE|_ZNSo|_ZNSt3tr1|_ZSt16__throw_bad_cast|_ZNSaI|__cxa_atexit|_ZSt9terminatev_)')
# bodies dropped before optimisation (they stay calls, and hit the models here)
DROP = re.compile(r'^(_ZN5Eigenls|_ZN5Eigen8internal12print_matrix|_ZStlsI|_ZStlsIS|_ZStrsI|_ZSt4endlI|_ZSt5flushI|_ZNSo|_ZNSi|_ZNKSo|_ZNSolsE|_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNSt8ios_base|_ZNKSt8ios_base|'
    r'_ZNSt13basic_ostream|_ZNSt13basic_istream|_ZNSt14basic_ofstream|_ZNSt14basic_ifstream|_ZNSt13basic_filebuf|_ZNSt15basic_streambuf|_ZSt16__ostream_insert|_ZNSt7__cxx1118basic_stringstream|'
    r'_ZNSt7__cxx1119basic_ostringstream|_ZNSt7__cxx1119basic_istringstream|_ZNSt7__cxx1115basic_stringbuf|_ZNKSt7__cxx1118basic_stringstream|_ZNKSt7__cxx1119basic_ostringstream|_ZSt7setfill|_ZSt12setprecision|_ZSt4setw|_ZSt7getlineI|_ZSt9use_facet|_ZSt13__check_facet|_ZNSt6locale)')

def noop(M, *a):
    return a[0] if a else 0
def findext(self, name):
    h = EXT.get(name)
    if h: self.ext[name] = h; return h
    if name.startswith('llvm.'):
        base = name.split('.')
        for k in range(len(base), 1, -1):
            h = EXT.get('.'.join(base[:k]))
            if h: self.ext[name] = h; return h
        raise Undecided('intrinsic ' + name)
    if NOOP.match(name): self.ext[name] = noop; return noop
    raise Undecided('no model of external function ' + name)
Machine.findext = findext

@ext('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t')
def _malloc(M, n, *a): return M.malloc(M.cint(n), 'heap')
@ext('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _newal(M, n, al): return M.malloc(M.cint(n), 'heap', M.cint(al))
@ext('aligned_alloc')
def _al(M, al, n): return M.malloc(M.cint(n), 'heap', M.cint(al))
@ext('posix_memalign')
def _pma(M, pp, al, n): M.store(pp, 8, M.malloc(M.cint(n), 'heap', M.cint(al))); return 0
@ext('calloc')
def _calloc(M, n, s):
    b = M.malloc(M.cint(n)*M.cint(s), 'heap'); M.memset(b, 0, n*s); return b
@ext('realloc')
def _realloc(M, p, n):
    b = M.malloc(M.cint(n), 'heap')
    if p:
        M.memcpy(b, p, min(M.alloc[p][0], n)); M.free(p)
    return b
@ext('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _free(M, p, *a): M.free(M.cint(p))
@ext('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _memcpy(M, d, s, n, *a): M.memcpy(d, s, n); return d
@ext('llvm.memset', 'memset')
def _memset(M, d, v, n, *a): M.memset(d, v, n); return d
@ext('memcmp', 'bcmp')
def _memcmp(M, a, b, n):
    for i in range(M.cint(n)):
        x = M.cint(M.load(a+i, 1)); y = M.cint(M.load(b+i, 1))
        if x != y: return (1 if x > y else -1) & 0xffffffff
    return 0
@ext('memchr')
def _memchr(M, a, c, n):
    for i in range(M.cint(n)):
        if M.cint(M.load(a+i, 1)) == c & 255: return a+i
    return 0
@ext('strlen')
def _strlen(M, a):
    n = 0
    while M.cint(M.load(a+n, 1)): n += 1
    return n
@ext('strcmp')
def _strcmp(M, a, b):
    x = M.cstr(a); y = M.cstr(b)
    return 0 if x == y else 1 if x > y else 0xffffffff
@ext('llvm.sqrt', 'sqrt')
def _sqrt(M, x): return sqrt(x)
@ext('llvm.fabs', 'fabs')
def _fabs(M, x): return fabs(x)
def fnm(name, f):
    def g(M, *a):
        if all(type(x) is Fraction for x in a):
            if name in ('sin', 'tan', 'atan', 'asin', 'sinh', 'tanh') and a[0] == 0: return ZERO
            if name in ('cos', 'exp', 'cosh') and a[0] == 0: return ONE
            if name == 'log' and a[0] == 1: return ZERO
            if name == 'log' and a[0] <= 0: return -INF if a[0] == 0 else NAN
            if name == 'acos' and a[0] == 1: return ZERO
        if any(type(x) is float for x in a):
            if any(x != x for x in a if type(x) is float): return NAN
            if name == 'exp': return INF if a[0] > 0 else ZERO
            raise Undecided(name + ' of an infinity')
        if any(x is UNDEF for x in a): return UNDEF
        if name == 'exp' and type(a[0]) is E and a[0].op == 'f' and a[0].a[0] == 'log': return a[0].a[1]
        if name == 'cos' and type(a[0]) is E and a[0].op == 'f' and a[0].a[0] == 'acos': return a[0].a[1]
        if name == 'log' and type(a[0]) is E and a[0].op == 'f' and a[0].a[0] == 'exp': return a[0].a[1]
        return mk('f', name, *a)
    return g
for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'atan2', 'tanh', 'sinh', 'cosh', 'log10', 'log1p', 'expm1', 'cbrt', 'log2', 'exp2', 'hypot3'):
    EXT[_n] = fnm(_n, None); EXT['llvm.'+_n] = EXT[_n]
@ext('hypot')
def _hypot(M, x, y): return sqrt(add(mul(x, x), mul(y, y)))
@ext('pow', 'llvm.pow')
def _pow(M, x, y):
    if type(y) is Fraction:
        if y.denominator == 1 and abs(y) <= 32:
            n = abs(int(y)); r = ONE
            for _ in range(n): r = mul(r, x)
            return r if y >= 0 else div(ONE, r)
        if y == Fraction(1, 2): return sqrt(x)
        if y == Fraction(3, 2): return mul(x, sqrt(x))
    if type(x) is float or type(y) is float: raise Undecided('pow of special value')
    return mk('f', 'pow', x, y)
@ext('llvm.powi')
def _powi(M, x, n):
    if n >= 2**31: n -= 2**32
    r = ONE
    for _ in range(abs(n)): r = mul(r, x)
    return r if n >= 0 else div(ONE, r)
@ext('fmax', 'llvm.maxnum', 'llvm.maximum')
def _fmax(M, a, b):
    if type(a) is float and a != a: return b
    if type(b) is float and b != b: return a
    return M.select(cmp('lt', a, b), b, a, False)
@ext('fmin', 'llvm.minnum', 'llvm.minimum')
def _fmin(M, a, b):
    if type(a) is float and a != a: return b
    if type(b) is float and b != b: return a
    return M.select(cmp('lt', b, a), b, a, False)
@ext('llvm.fmuladd', 'llvm.fma', 'fma')
def _fma(M, a, b, c): return add(mul(a, b), c)
@ext('llvm.copysign', 'copysign')
def _copysign(M, a, b):
    a = fabs(a)
    if type(b) is Fraction: return a if b >= 0 else neg(a)
    return ite(cmp('lt', b, ZERO), neg(a), a)
@ext('floor', 'llvm.floor', 'ceil', 'llvm.ceil', 'round', 'llvm.round', 'trunc', 'llvm.trunc', 'rint')
def _floor(M, a): raise Undecided('floor/ceil of a symbolic value')
def mkround(f):
    def g(M, a):
        if type(a) is Fraction: return Fraction(f(a))
        if type(a) is float: return a
        raise Undecided('rounding of a symbolic value')
    return g
EXT['floor'] = EXT['llvm.floor'] = mkround(math.floor)
EXT['ceil'] = EXT['llvm.ceil'] = mkround(math.ceil)
EXT['trunc'] = EXT['llvm.trunc'] = mkround(math.trunc)
@ext('round', 'llvm.round', 'lround')
def _round(M, a):
    if type(a) is Fraction:
        q = math.floor(abs(a)+Fraction(1, 2)); return Fraction(q if a >= 0 else -q)
    if type(a) is E:       # an integer whatever the inputs are
        for q in range(0, 9):
            for z in (Fraction(q), Fraction(q)+Fraction(1, 4), Fraction(q)-Fraction(1, 4)):
                try:
                    if M.decider.__self__.getctx().iszero(sub(a, z)): return Fraction(q)
                except Exception: pass
    raise Undecided('rounding of a symbolic value')
@ext('fmod')
def _fmod(M, a, b): return frem(a, b)
@ext('llvm.is.fpclass')
def _fpclass(M, x, mask):
    # bits: 0,1 nan; 2 -inf; 3..6 -normal,-sub,-zero,+zero ; 7,8 +sub,+norm ; 9 +inf
    if type(x) is float:
        if x != x: return bool(mask & 3)
        return bool(mask & (512 if x > 0 else 4))
    if x is UNDEF: return UNDEF
    # subnormals count as numbers of their sign; the two zeros are one real number
    parts = [(mask >> 3 & 3, 'neg'), (mask >> 5 & 3, 'zero'), (mask >> 7 & 3, 'pos')]
    if any(m not in (0, 3) for m, _ in parts): raise Undecided('is.fpclass %d' % mask)
    on = {n for m, n in parts if m}
    if len(on) == 3: return True
    if not on: return False
    Z = Fraction(0)
    T = {('neg',): lambda: cmp('lt', x, Z), ('zero',): lambda: cmp('eq', x, Z), ('pos',): lambda: cmp('lt', Z, x), ('neg', 'pos'): lambda: bnot(cmp('eq', x, Z)),
         ('neg', 'zero'): lambda: cmp('le', x, Z), ('pos', 'zero'): lambda: cmp('le', Z, x)}
    return T[tuple(sorted(on))]()
@ext('llvm.umax')
def _umax(M, a, b): a = M.cint(a); b = M.cint(b); return max(a, b)
@ext('llvm.umin')
def _umin(M, a, b): a = M.cint(a); b = M.cint(b); return min(a, b)
def _sg(a, n): return a - (1 << n) if a >> (n-1) else a
for _b in (8, 16, 32, 64):
    EXT['llvm.smax.i%d' % _b] = (lambda n: lambda M, a, b: max((M.cint(a), M.cint(b)), key=lambda v: _sg(v, n)))(_b)
    EXT['llvm.smin.i%d' % _b] = (lambda n: lambda M, a, b: min((M.cint(a), M.cint(b)), key=lambda v: _sg(v, n)))(_b)
    EXT['llvm.abs.i%d' % _b] = (lambda n: lambda M, a, p: abs(_sg(M.cint(a), n)) & ((1 << n)-1))(_b)
    EXT['llvm.ctlz.i%d' % _b] = (lambda n: lambda M, a, p: n - M.cint(a).bit_length())(_b)
    EXT['llvm.cttz.i%d' % _b] = (lambda n: lambda M, a, p: (M.cint(a) & -M.cint(a)).bit_length()-1 if M.cint(a) else n)(_b)
    EXT['llvm.ctpop.i%d' % _b] = (lambda n: lambda M, a: bin(M.cint(a)).count('1'))(_b)
    EXT['llvm.umul.with.overflow.i%d' % _b] = (lambda n: lambda M, a, b: ((M.cint(a)*M.cint(b)) & ((1 << n)-1), M.cint(a)*M.cint(b) >> n != 0))(_b)
    EXT['llvm.uadd.with.overflow.i%d' % _b] = (lambda n: lambda M, a, b: ((M.cint(a)+M.cint(b)) & ((1 << n)-1), M.cint(a)+M.cint(b) >> n != 0))(_b)
    EXT['llvm.usub.sat.i%d' % _b] = lambda M, a, b: max(0, M.cint(a)-M.cint(b))
    EXT['llvm.uadd.sat.i%d' % _b] = (lambda n: lambda M, a, b: min((1 << n)-1, M.cint(a)+M.cint(b)))(_b)
    EXT['llvm.fshl.i%d' % _b] = (lambda n: lambda M, a, b, c: (((M.cint(a) << n | M.cint(b)) << (M.cint(c) % n)) >> n) & ((1 << n)-1))(_b)
    EXT['llvm.bswap.i%d' % _b] = (lambda n: lambda M, a: int.from_bytes(M.cint(a).to_bytes(n//8, 'little'), 'big'))(_b)
@ext('llvm.invariant.start','llvm.invariant.end','llvm.prefetch','llvm.stackrestore','llvm.va_end','llvm.donothing','llvm.annotation')
def _inv(M, *a): return 0
@ext('llvm.stacksave')
def _ss(M, *a): return 0
@ext('llvm.launder.invariant.group','llvm.strip.invariant.group','llvm.threadlocal.address')
def _lg(M, a): return a
@ext('llvm.expect')
def _expect(M, a, b): return a
@ext('llvm.is.constant')
def _isc(M, a): return False
@ext('llvm.objectsize')
def _osz(M, *a): return 2**64-1
@ext('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '_ZSt10unexpectedv')
def _abort(M, *a): raise PathEnd('abort')
@ext('exit', '_exit', '_Exit')
def _exit(M, s): raise PathEnd('exit', _sg(M.cint(s), 32))
@ext('__cxa_atexit', 'atexit', '__cxa_thread_atexit')
def _atexit(M, *a): return 0
@ext('__cxa_guard_acquire')
def _ga(M, p):
    v = type(M).load(M, p, 1)
    if v is UNDEF or v == 0: M.parguard = 1; return 1      # ordered by the guard: no race
    return 0
@ext('__cxa_guard_release')
def _gr(M, p): type(M).store(M, p, 1, 1); M.parguard = 0
@ext('__cxa_allocate_exception')
def _cae(M, n): return M.malloc(M.cint(n), 'heap')
@ext('__cxa_free_exception')
def _cfe(M, p): return None
@ext('__cxa_throw')
def _throw(M, o, ti, d): raise Thrown(o, ti, d)
@ext('__cxa_rethrow')
def _rethrow(M): raise M.eh
@ext('__cxa_begin_catch')
def _bc(M, p): return p
@ext('__cxa_end_catch')
def _ec(M): return None
@ext('llvm.eh.typeid.for')
def _tid(M, p): return p if p else 1
@ext('__cxa_pure_virtual')
def _pv(M): raise Fault('pure virtual call')
for _n in '__throw_length_error __throw_bad_alloc __throw_logic_error __throw_out_of_range __throw_invalid_argument __throw_bad_function_call __throw_runtime_error __throw_bad_array_new_length __throw_system_error __throw_out_of_range_fmt'.split():
    for _s in ('PKc', 'v', 'PKcz', 'i'):
        def _mk(n):
            def g(M, *a): raise Thrown(0, 'std:' + n)
            return g
        EXT['_ZSt%d%s%s' % (len(_n), _n, _s)] = _mk(_n)
@ext('__cxa_init_primary_exception')
def _x(M, *a): return None
# std::exception hierarchy constructors/destructors
for _n in ('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt11logic_errorC1EPKc', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt13runtime_errorD1Ev', '_ZNSt9exceptionD2Ev', '_ZNSt11logic_errorD1Ev', '_ZNSt12length_errorC1EPKc'):
    EXT[_n] = noop
# locks: ghost state
@ext('pthread_mutex_lock')
def _lock(M, p):
    if p in M.locks: raise Fault('mutex locked twice')
    M.locks.add(p); return 0
@ext('pthread_mutex_unlock')
def _unlock(M, p):
    if p not in M.locks: raise Fault('unlock of a mutex that is not held')
    M.locks.discard(p); return 0
@ext('pthread_mutex_trylock')
def _trylock(M, p):
    if p in M.locks: return 16
    M.locks.add(p); return 0
@ext('pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_once')
def _mi(M, *a): return 0
@ext('__errno_location')
def _errno(M):
    if 'errno!' not in M.gaddr: M.gaddr['errno!'] = M.malloc(8, 'global'); 
    return M.gaddr['errno!']
@ext('rand', 'random')
def _rand(M): raise Undecided('rand')
@ext('srand', 'srandom')
def _srand(M, *a): return None
@ext('puts', 'putchar', 'printf', 'fprintf', 'fflush', 'fputs', 'fwrite', 'fputc', 'perror', 'remove', 'signal')
def _io(M, *a): return 0
@ext('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv', 'time', 'clock')
def _now(M, *a): return 1000
