"""Translation of terms to SMT (z3 python API; cvc5 through SMT-LIB text)."""
import z3, subprocess, time, math
from fractions import Fraction
from expr import *
import expr as X

class Tr:
    def __init__(self, unitgroups=(), extra=None):
        self.memo = {}
        self.side = []
        self.vars = {}
        self.n = 0
        self.units = unitgroups
        for g in unitgroups:
            self.side.append(z3.Sum([self.r(v)*self.r(v) for v in g]) == 1)
    def fresh(self, p):
        self.n += 1
        return z3.Real('%s!%d' % (p, self.n))
    def r(self, e):
        if type(e) is Fraction: return z3.RealVal(str(e))
        if type(e) is int: return z3.IntVal(e)
        if type(e) is bool: return z3.BoolVal(e)
        if type(e) is float or e is UNDEF: raise Undecided('special value in SMT')
        stack = [e]
        while stack:
            t = stack[-1]
            if t.id in self.memo: stack.pop(); continue
            kids = t.a[1:] if t.op == 'f' else () if t.op in ('v', 'iv', 'bv') else t.a
            todo = [k for k in kids if type(k) is E and k.id not in self.memo]
            if todo: stack.extend(todo); continue
            self.memo[t.id] = self.r1(t); stack.pop()
        return self.memo[e.id]
    def r1(self, t):
        op = t.op
        if op == 'v':
            v = z3.Real(t.a[0]); self.vars[t.a[0]] = v; return v
        if op == 'iv':
            v = z3.Int(t.a[0]); self.vars[t.a[0]] = v; return v
        if op == 'bv':
            v = z3.Bool(t.a[0]); self.vars[t.a[0]] = v; return v
        a = [self.r(x) for x in (t.a[1:] if op == 'f' else t.a)]
        if op in ('+', 'i+'): return a[0]+a[1]
        if op == '-': return a[0]-a[1]
        if op in ('*', 'i*'): return a[0]*a[1]
        if op == '/':
            self.side.append(a[1] != 0); return a[0]/a[1]
        if op == 'sqrt':
            s = self.fresh('sqrt'); self.side += [s >= 0, s*s == a[0]]; return s
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op in ('lt', 'ilt'): return a[0] < a[1]
        if op in ('le', 'ile'): return a[0] <= a[1]
        if op in ('eq', 'ieq'): return a[0] == a[1]
        if op == 'not': return z3.Not(a[0])
        if op == 'and': return z3.And(a[0], a[1])
        if op == 'or': return z3.Or(a[0], a[1])
        if op == 'b2i': return z3.If(a[0], z3.IntVal(1), z3.IntVal(0))
        if op == 'i2r': return z3.ToReal(a[0])
        if op == 'f':
            name = t.a[0]
            f = z3.Function('uf_'+name, *([z3.RealSort() if x.sort() == z3.RealSort() else z3.IntSort() for x in a] + [z3.RealSort()])) if a else z3.Real('uf_'+name)
            r = f(*a) if a else f
            if name in ('cos', 'sin'):
                o = z3.Function('uf_'+('sin' if name == 'cos' else 'cos'), z3.RealSort(), z3.RealSort())(*a)
                self.side.append(r*r + o*o == 1)
            if name == 'exp': self.side.append(r > 0)
            if name == 'tanh': self.side += [r > -1, r < 1]
            return r
        raise Undecided('SMT translation of ' + op)

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
def check(formulas, units=(), timeout=5.0, want_model=False, tactic=None):
    """-> ('unsat'|'sat'|'unknown', model dict or None)"""
    t0 = time.time()
    tr = Tr(units)
    try:
        fs = [tr.r(f) for f in formulas]
    except Undecided:
        return 'unknown', None
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout*1000))
    for f in fs: s.add(f)
    for f in tr.side: s.add(f)
    try: r = str(s.check())
    except z3.Z3Exception: r = 'unknown'
    STATS['queries'] += 1; STATS['time'] += time.time()-t0; STATS[r] = STATS.get(r, 0)+1
    m = None
    if r == 'sat' and want_model:
        mod = s.model(); m = {}
        for n, v in tr.vars.items():
            x = mod.eval(v, model_completion=True)
            try:
                if z3.is_int_value(x): m[n] = x.as_long()
                elif z3.is_rational_value(x): m[n] = float(x.numerator_as_long())/float(x.denominator_as_long())
                elif z3.is_algebraic_value(x): m[n] = float(x.approx(20).as_fraction())
                elif z3.is_true(x) or z3.is_false(x): m[n] = 1 if z3.is_true(x) else 0
            except Exception: pass
    return r, m
def cvc5_check(formulas, units=(), timeout=10.0):
    t0 = time.time()
    tr = Tr(units)
    try: fs = [tr.r(f) for f in formulas]
    except Undecided: return 'unknown'
    s = z3.Solver()
    for f in fs: s.add(f)
    for f in tr.side: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout*1000), '--nl-cov', '-'], input=txt, capture_output=True, text=True, timeout=timeout+5)
        r = p.stdout.strip().split('\n')[0]
    except Exception: r = 'unknown'
    if r not in ('sat', 'unsat'): r = 'unknown'
    STATS['queries'] += 1; STATS['time'] += time.time()-t0; STATS[r] = STATS.get(r, 0)+1
    return r

# ---- numeric evaluation of a term DAG
def numeval(e, env, memo=None):
    if memo is None: memo = {}
    if type(e) is Fraction: return float(e)
    if type(e) is not E:
        if e is UNDEF: return float('nan')
        return e
    stack = [e]
    while stack:
        t = stack[-1]
        if t.id in memo: stack.pop(); continue
        if t.op in ('v', 'iv', 'bv'):
            memo[t.id] = env[t.a[0]]; stack.pop(); continue
        kids = t.a[1:] if t.op == 'f' else t.a
        todo = [k for k in kids if type(k) is E and k.id not in memo]
        if todo: stack.extend(todo); continue
        a = [memo[k.id] if type(k) is E else (float(k) if type(k) is Fraction else k) for k in kids]
        memo[t.id] = num1(t, a, env); stack.pop()
    return memo[e.id]
class Ambiguous(Exception): pass
def exacteval(e, env, memo):
    """exact rational evaluation; irrational parts are floats, and comparisons of floats need a margin"""
    if type(e) is not E: return e
    stack = [e]
    while stack:
        t = stack[-1]
        if t.id in memo: stack.pop(); continue
        if t.op in ('v', 'iv', 'bv'):
            v = env[t.a[0]]
            memo[t.id] = Fraction(v) if type(v) is float and v == v and abs(v) != math.inf else v
            stack.pop(); continue
        kids = t.a[1:] if t.op == 'f' else t.a
        todo = [k for k in kids if type(k) is E and k.id not in memo]
        if todo: stack.extend(todo); continue
        a = [memo[k.id] if type(k) is E else k for k in kids]
        op = t.op
        if op in ('lt', 'le', 'eq', 'ilt', 'ile', 'ieq') and (type(a[0]) is float or type(a[1]) is float):
            x, y = float(a[0]), float(a[1])
            if abs(x-y) <= 1e-9*max(abs(x), abs(y)): raise Ambiguous()
            r = num1(t, [x, y], env)
        elif op == 'sqrt' and type(a[0]) is Fraction and a[0] >= 0 and math.isqrt(a[0].numerator)**2 == a[0].numerator and math.isqrt(a[0].denominator)**2 == a[0].denominator:
            r = Fraction(math.isqrt(a[0].numerator), math.isqrt(a[0].denominator))
        elif op in ('sqrt', 'f'):
            r = num1(t, [float(x) if type(x) in (Fraction, int) else x for x in a], env)
        else:
            if any(type(x) is float for x in a): a = [float(x) if type(x) is Fraction else x for x in a]
            r = num1(t, a, env)
            if op == 'i2r' and type(r) is float: r = Fraction(int(r))
        if type(r) is Fraction and r.denominator.bit_length() > 4000: r = float(r)
        memo[t.id] = r; stack.pop()
    return memo[e.id]
def num1(t, a, env):
    op = t.op
    try:
        if op in ('+', 'i+'): return a[0]+a[1]
        if op == '-': return a[0]-a[1]
        if op in ('*', 'i*'): return a[0]*a[1]
        if op == '/': return a[0]/a[1]
        if op == 'sqrt': return math.sqrt(a[0])
        if op == 'ite': return a[1] if a[0] else a[2]
        if op in ('lt', 'ilt'): return a[0] < a[1]
        if op in ('le', 'ile'): return a[0] <= a[1]
        if op in ('eq', 'ieq'): return a[0] == a[1]
        if op == 'not': return not a[0]
        if op == 'and': return a[0] and a[1]
        if op == 'or': return a[0] or a[1]
        if op == 'b2i': return 1 if a[0] else 0
        if op == 'i2r': return float(a[0])
        if op == 'f':
            n = t.a[0]
            f = getattr(math, n, None)
            if f: return f(*a)
            if n == 'fptrunc':
                import struct
                return struct.unpack('<f', struct.pack('<f', a[0]))[0]
            # uninterpreted: deterministic pseudo-random smooth function
            h = 0.37
            for i, x in enumerate(a): h += math.sin((i+1.3)*x + len(n) + sum(map(ord, n))*0.1)
            return h
    except (ValueError, ZeroDivisionError, OverflowError):
        return float('nan')
    raise Undecided('numeval ' + op)
