"""Exact multivariate polynomial / rational-function normal forms.

Monomials are Python ints with packed 8-bit exponents; coefficients Fractions.
Atoms (variables, square roots, sin/cos, uninterpreted functions) are numbered.
Reduction rules  atom^2 -> poly/poly  implement sqrt(a)^2=a, |u|=1, sin^2+cos^2=1.
"""
from fractions import Fraction
from expr import *
import expr as X

B = 8
MASK = (1 << B) - 1
MAXTERMS = 400000
class TooBig(Undecided): pass

def padd(p, q):
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None: r[m] = c
        else:
            s += c
            if s: r[m] = s
            else: del r[m]
    return r
def pneg(p): return {m: -c for m, c in p.items()}
def psub(p, q): return padd(p, pneg(q))
def pscale(p, k):
    if not k: return {}
    return {m: c*k for m, c in p.items()}
def pmul(p, q):
    if len(p) > len(q): p, q = q, p
    if len(p)*len(q) > 20*MAXTERMS: raise TooBig('polynomial product')
    r = {}
    get = r.get
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m1+m2
            s = get(m)
            r[m] = c1*c2 if s is None else s + c1*c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > MAXTERMS: raise TooBig('polynomial size')
    return r
PONE = {0: Fraction(1)}
def peq(p, q):
    return p == q

_names = {}
def intern_(t):
    """collision-free name of a structure (Python's hash(-1) == hash(-2) makes hashes unusable)"""
    r = _names.get(t)
    if r is None: r = _names[t] = len(_names)
    return r
class Ctx:
    """A normal-form context: atoms, their rules, memo tables."""
    def __init__(self, rules=None):
        self.atoms = []        # atom index -> E (or canonical key)
        self.index = {}        # key -> index
        self.rule = {}         # atom index -> (num poly, den poly) meaning atom^2
        self.inv = {}          # atom index -> polynomial it inverts
        self.memo = {}
        self.iteval = {}       # ite condition id -> bool (case assignment)
        self.dens = {}         # denominators met: id -> poly
        self.abs = False
        self.akeys = []; self._canon = {}
        self.subst = {}        # variable E id -> E (substitutions, e.g. from equalities)
        self.setrules(rules or [])
    def setrules(self, rules):
        # rules: list of (var E, expr E) meaning var^2 = expr
        self._prules = {v.id: rhs for v, rhs in rules}
    def atom(self, key, node):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms); self.index[key] = i; self.atoms.append(node); self.akeys.append(key)
        return i
    def canon(self, i):
        """context independent identity of an atom"""
        h = self._canon.get(i)
        if h is None:
            k = self.akeys[i]
            if type(k) is tuple: h = intern_(('a',) + tuple(self.canonp(dict(x)) if type(x) is frozenset else tuple(self.canonp(dict(y)) for y in x) if type(x) is tuple else x for x in k))
            else: h = intern_(('id', k))
            self._canon[i] = h
        return h
    def canonp(self, n):
        l = []
        for m, c in n.items():
            t = []; i = 0
            while m:
                e = m & MASK
                if e: t.append((self.canon(i), e))
                m >>= B; i += 1
            l.append((tuple(sorted(t)), c))
        return intern_(('p',) + tuple(sorted(l)))
    def var1(self, i): return {1 << (B*i): Fraction(1)}
    def reduce(self, p):
        """apply rules atom^2 -> n (den must be 1 here, else handled in zero test)"""
        for i, (n, d) in list(self.rule.items()):
            if d is not None: continue
            p = self._red1(p, i, n)
        return p
    def _red1(self, p, i, n):
        sh = B*i
        hit = None
        for m in p:
            if ((m >> sh) & MASK) >= 2: hit = True; break
        if not hit: return p
        out = {}
        pows = {0: PONE}
        groups = {}
        for m, c in p.items():
            e = (m >> sh) & MASK
            if e < 2:
                out[m] = out.get(m, 0) + c
            else:
                k = e//2
                groups.setdefault(k, {})[m - ((2*k) << sh)] = c
        out = {m: c for m, c in out.items() if c}
        for k, g in groups.items():
            if k not in pows:
                q = PONE
                for _ in range(k): q = pmul(q, n)
                pows[k] = q
            out = padd(out, pmul(g, pows[k]))
        return self._red1(out, i, n)
    def mulr(self, p, q):
        r = pmul(p, q)
        return self.reduce(r) if self.rule else r
    # ---- normal form of a term: (num, den)
    def nf(self, e):
        if type(e) is Fraction: return ({0: abs(e) if self.abs else e} if e else {}, PONE)
        if type(e) is int: return ({0: Fraction(e)} if e else {}, PONE)
        if type(e) is float: raise Undecided('special value in normal form')
        if e is UNDEF: raise Undecided('undefined value')
        r = self.memo.get(e.id)
        if r is not None: return r
        # iterative post-order to avoid recursion limits
        stack = [e]
        while stack:
            t = stack[-1]
            if t.id in self.memo: stack.pop(); continue
            kids = self.kids(t)
            todo = [k for k in kids if type(k) is E and k.id not in self.memo]
            if todo: stack.extend(todo); continue
            self.memo[t.id] = self.nf1(t)
            stack.pop()
        return self.memo[e.id]
    def kids(self, t):
        if t.op in ('v', 'iv'): 
            s = self.subst.get(t.id)
            if s is not None: return (s,)
            r = self._prules.get(t.id)
            return (r,) if r is not None else ()
        if t.op == 'f': return t.a[1:]
        if t.op == 'ite':
            v = self.itecase(t.a[0])
            return (t.a[1] if v else t.a[2],)
        return t.a
    def itecase(self, c):
        v = self.iteval.get(c.id)
        if v is None and c.op == 'not':
            w = self.iteval.get(c.a[0].id)
            if w is not None: v = not w
        if v is None:
            v = evalbool(c, self.iteval)
        if v is None: raise NeedCase(c)
        return v
    def nf1(self, t):
        op = t.op
        if op in ('v', 'iv'):
            s = self.subst.get(t.id)
            if s is not None: return self.nf(s)
            i = self.atom(t.id, t)
            r = self._prules.get(t.id)
            if r is not None and i not in self.rule:
                n, d = self.nf(r)
                self.rule[i] = (n, None if d == PONE else d)
            return (self.var1(i), PONE)
        if op in ('+', '-', 'i+'):
            (n1, d1), (n2, d2) = self.nf(t.a[0]), self.nf(t.a[1])
            if op == '-' and not self.abs: n2 = pneg(n2)
            if not n1: return (n2, d2)
            if not n2: return (n1, d1)
            if d1 is d2 or d1 == d2: return (padd(n1, n2), d1)
            if d2 == PONE: return (padd(n1, self.mulr(n2, d1)), d1)
            if d1 == PONE: return (padd(self.mulr(n1, d2), n2), d2)
            # common denominator: divide out when one divides the other by a monomial
            l, k1, k2 = self.lcm(d1, d2)
            return (padd(self.mulr(n1, k1), self.mulr(n2, k2)), l)
        if op in ('*', 'i*'):
            (n1, d1), (n2, d2) = self.nf(t.a[0]), self.nf(t.a[1])
            if not n1 or not n2: return ({}, PONE)
            n = self.mulr(n1, n2)
            d = d2 if d1 == PONE else d1 if d2 == PONE else self.mulr(d1, d2)
            return self.norm(n, d)
        if op == '/':
            (n1, d1), (n2, d2) = self.nf(t.a[0]), self.nf(t.a[1])
            if not n2: raise Undecided('division by a term that is identically zero')
            self.dens[t.a[1].id] = t.a[1]
            n = n1 if d2 == PONE else self.mulr(n1, d2)
            if len(n2) > 1:
                # multi-term divisor: its inverse becomes an atom, cleared in the zero test
                lead = max(n2); c = n2[lead]
                q = pscale(n2, 1/c) if c != 1 else n2
                key = ('inv', frozenset(q.items()))
                i = self.atom(key, t)
                self.inv[i] = q
                n = self.mulr(n, {1 << (B*i): 1/c})
                return self.norm(n, d1)
            d = n2 if d1 == PONE else self.mulr(d1, n2)
            return self.norm(n, d)
        if op == 'ite':
            return self.nf(t.a[1] if self.itecase(t.a[0]) else t.a[2])
        if op == 'sqrt':
            n, d = self.nf(t.a[0])
            if d == PONE and len(n) == 1 and 0 in n:
                q = X.isqrt_frac(n[0]) if n[0] > 0 else None
                if q is not None: return ({0: q}, PONE)
            if not n: return ({}, PONE)
            key = ('sqrt', frozenset(n.items()), frozenset(d.items()))
            new = key not in self.index
            i = self.atom(key, t)
            if new: self.rule[i] = (n, None if d == PONE else d)
            return (self.var1(i), PONE)
        if op == 'f':
            name = t.a[0]
            args = [self.nf(x) for x in t.a[1:]]
            key = ('f', name) + tuple((frozenset(n.items()), frozenset(d.items())) for n, d in args)
            new = key not in self.index
            i = self.atom(key, t)
            if new and name == 'cos':
                s = self.nf(mk('f', 'sin', t.a[1]))[0]
                self.rule[i] = (padd(PONE, pneg(pmul(s, s))), None)
            return (self.var1(i), PONE)
        if op == 'i2r': return self.nf(t.a[0])
        raise Undecided('normal form of ' + op)
    def norm(self, n, d):
        """cancel constant content and common monomial factors of the denominator"""
        if not n: return (n, PONE)
        if len(d) == 1:
            (m, c), = d.items()
            if m == 0: return (pscale(n, 1/c), PONE)
            if c != 1: n = pscale(n, 1/c)
            g = self.monogcd(n, m)
            if g: n = {k-g: v for k, v in n.items()}; m -= g
            return (n, {m: Fraction(1)} if m else PONE)
        if n == d: return (PONE, PONE)
        return (n, d)
    def monogcd(self, n, m):
        g = m
        for k in n:
            # componentwise min of packed exponents
            r = 0; x = g; sh = 0; y = k
            while x:
                a = x & MASK
                if a:
                    b = (k >> sh) & MASK
                    if b < a: a = b
                    r |= a << sh
                x >>= B; sh += B
            g = r
            if not g: return 0
        return g
    def lcm(self, d1, d2):
        if len(d1) == 1 and len(d2) == 1:
            (m1, c1), = d1.items(); (m2, c2), = d2.items()
            r = 0; sh = 0; x = m1 | m2
            a, b = m1, m2
            while a or b:
                r |= max(a & MASK, b & MASK) << sh
                a >>= B; b >>= B; sh += B
            return ({r: Fraction(1)}, {r-m1: 1/c1}, {r-m2: 1/c2})
        return (self.mulr(d1, d2), d2, d1)
    def clear_rules(self, p):
        """reduce p (a numerator) modulo all rules and clear inverse atoms (sound: multiplies by nonzero terms)"""
        for _ in range(200):
            changed = False
            for i in range(len(self.atoms)-1, -1, -1):
                sh = B*i
                if i in self.rule:
                    if not any(((m >> sh) & MASK) >= 2 for m in p): continue
                    changed = True
                    n, d = self.rule[i]
                    if d is None: p = self._red1(p, i, n)
                    else:
                        K = max(((m >> sh) & MASK)//2 for m in p)
                        np_ = [PONE]; dp = [PONE]
                        for _k in range(K): np_.append(pmul(np_[-1], n)); dp.append(pmul(dp[-1], d))
                        groups = {}
                        for m, c in p.items():
                            k = ((m >> sh) & MASK)//2
                            groups.setdefault(k, {})[m - ((2*k) << sh)] = c
                        out = {}
                        for k, g in groups.items(): out = padd(out, pmul(g, pmul(np_[k], dp[K-k])))
                        p = out
                elif i in self.inv:
                    K = 0
                    for m in p:
                        e = (m >> sh) & MASK
                        if e > K: K = e
                    if not K: continue
                    changed = True
                    d = self.inv[i]; dp = [PONE]
                    for _k in range(K): dp.append(self.mulr(dp[-1], d))
                    groups = {}
                    for m, c in p.items():
                        e = (m >> sh) & MASK
                        groups.setdefault(e, {})[m - (e << sh)] = c
                    out = {}
                    for e, g in groups.items(): out = padd(out, self.mulr(g, dp[K-e]))
                    p = out
                if not p: return p
            if not changed: break
        return p
    def iszero(self, e):
        n, d = self.nf(e)
        if not n: return True
        return not self.clear_rules(n)

class NeedCase(Exception):
    def __init__(self, c): self.cond = c

def evalbool(c, env):
    """three-valued evaluation of a boolean term under an assignment of atoms"""
    if type(c) in (bool, int): return bool(c)
    v = env.get(c.id)
    if v is not None: return v
    if c.op == 'not':
        v = evalbool(c.a[0], env)
        return None if v is None else not v
    if c.op == 'and':
        a, b = evalbool(c.a[0], env), evalbool(c.a[1], env)
        if a is False or b is False: return False
        return True if (a and b) else None
    if c.op == 'or':
        a, b = evalbool(c.a[0], env), evalbool(c.a[1], env)
        if a or b: return True
        return False if (a is False and b is False) else None
    if c.op == 'ite':
        v = evalbool(c.a[0], env)
        if v is None: return None
        return evalbool(c.a[1] if v else c.a[2], env)
    return None
