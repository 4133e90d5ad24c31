"""Path exploration of a harness entry and discharge of its obligations."""
import time, sys, random, math, os
from fractions import Fraction
from expr import *
import expr as X
from poly import Ctx, NeedCase, TooBig, evalbool, PONE
class NotLinear(Exception): pass
import smt
from interp import *
import models

class Ob:
    __slots__ = ('name', 'kind', 'a', 'b', 'status', 'by', 'dt', 'model', 'info', 'path')
    def __init__(s, name, kind, a, b=None):
        s.name = name; s.kind = kind; s.a = a; s.b = b; s.status = None; s.by = None; s.dt = 0; s.model = None; s.info = None
    def asdict(s):
        return dict(name=s.name, kind=s.kind, status=s.status, by=s.by, dt=round(s.dt, 3), model=s.model, info=s.info)

class Explorer:
    def __init__(self, mod, entry, opts=None):
        self.mod = mod; self.entry = entry
        self.opts = opts or {}
        self.z3_timeout = self.opts.get('z3_timeout', 10.0)
        self.maxpaths = self.opts.get('maxpaths', 4000)
        self.deadline = time.time() + self.opts.get('budget', 600)
        self.M = Machine(mod)
        self.M.deadline = self.deadline
        self.M.decider = self.decide
        self.M.locks = set(); self.M.par = []; self.M.parguard = 0
        for k in list(API): self.M.ext[k] = API[k]
        self.results = []          # obligations of all paths
        self.paths = []            # per path summary
        self.covers = {}
        self.contract_uses = {}
        self.undecided = []
        self.cutW = {}
        self.den_seen = set()
        self.unitgroups_all = {}
        self.substs = self.opts.get('contracts', {})
    # ---- one path
    def reset(self):
        M = self.M
        if not hasattr(self, 'snap'):
            self.snap = None
            self.begin_path([])
            self.initctors()
            self.snap = (dict(M.mem), list(M.bases), dict(M.alloc), M.top)
            M.ginit = {}
        mem, bases, alloc, top = self.snap
        M.mem = dict(mem); M.bases = list(bases); M.alloc = dict(alloc); M.top = top
        M.mem.update(M.ginit.get('mem', {})); M.alloc.update(M.ginit.get('alloc', {}))
        M.locks = set(); M.eh = None; M.over = {}; M.par = []; M.parguard = 0; M.atom = False
        for n in ('store', 'load', 'memcpy', 'memset'): M.__dict__.pop(n, None)
        M.__dict__.pop('store', None); M.__dict__.pop('load', None)
    def initctors(self):
        raw = self.mod.globals.get('llvm.global_ctors')
        if not raw: return
        from irparse import P, tokenize
        p = P(self.mod, tokenize(raw))
        p.attrs()
        while p.peek()[1] in ('appending', 'global', 'constant'): p.next()
        p.attrs()
        while p.peek()[1] in ('appending', 'global', 'constant'): p.next()
        t = p.type()
        o = p.operand(t)
        if o[0] != 'agg': return
        l = []
        for et, eo in o[2]:
            l.append((eo[2][0][1][1], eo[2][1][1]))
        for pr, f in sorted(l, key=lambda x: x[0]):
            if f[0] == 'g':
                try: self.M.callname(f[1], [])
                except Undecided as ex: self.undecided.append('global constructor %s: %s' % (f[1], ex))
    def begin_path(self, prefix):
        self.prefix = prefix; self.pos = 0; self.taken = []
        self.facts = []; self.known = {}; self.bnd = {}
        self.obs = []; self.names = {}
        self.inputs = []; self.units = []; self.rules = []
        self.exit_ok = None
        self.cuts = {}; self.cutpre = {}; self.intvars = set()
        self.M.frames = []
        self.ints = {}
        self.ctx = None
        X.DENS.clear()
    def uname(self, n):
        k = self.names.get(n, 0); self.names[n] = k+1
        return n if k == 0 else '%s#%d' % (n, k)
    def addfact(self, c, v=True):
        if not v: c = bnot(c)
        self._learn(c, True)
        self.facts.append(c)
        self.ctx = None
        if type(c) is E: self.addbound(c, True)
        # strict inequalities between integers
        if self.intvars and type(c) is E:
            t = c.a[0] if c.op == 'not' else c
            a = b = None
            if c.op == 'lt': a, b = c.a
            elif c.op == 'not' and t.op == 'le': b, a = t.a
            if a is not None and isintexpr(a, self.intvars) and isintexpr(b, self.intvars): self.addfact(cmp('le', add(a, ONE), b))
    def _learn(self, c, v):
        if type(c) is not E: return
        self.known[c.id] = v
        if c.op == 'not': self._learn(c.a[0], not v)
        elif c.op == 'and' and v: self._learn(c.a[0], True); self._learn(c.a[1], True)
        elif c.op == 'or' and not v: self._learn(c.a[0], False); self._learn(c.a[1], False)
        elif c.op == 'lt':
            a, b = c.a
            if v:
                self.known.setdefault(cid('le', a, b), True); self.known.setdefault(cid('lt', b, a), False)
                self.known.setdefault(cid('le', b, a), False); self.known.setdefault(cid('eq', a, b), False)
            else: self.known.setdefault(cid('le', b, a), True)
        elif c.op == 'le':
            a, b = c.a
            if not v:
                self.known.setdefault(cid('lt', b, a), True); self.known.setdefault(cid('le', b, a), True); self.known.setdefault(cid('lt', a, b), False)
                self.known.setdefault(cid('eq', a, b), False)
            else: self.known.setdefault(cid('lt', b, a), False)
        elif c.op == 'eq' and v:
            a, b = c.a
            for o, x in (('le', True), ('lt', False)):
                self.known.setdefault(cid(o, a, b), x); self.known.setdefault(cid(o, b, a), x)
    def getctx(self, cases=None):
        if cases is None and self.ctx is not None: return self.ctx
        c = Ctx(self.rules)
        c.iteval = dict(self.known)
        if cases: c.iteval.update(cases)
        # equalities var == const on the path
        def eqs(t, v):
            if type(t) is not E: return
            if v and t.op == 'eq' and t.a[0].op == 'v' and type(t.a[1]) is Fraction: c.subst[t.a[0].id] = t.a[1]
            elif v and t.op == 'and': eqs(t.a[0], True); eqs(t.a[1], True)
            elif t.op == 'not': eqs(t.a[0], not v)
            elif not v and t.op == 'or': eqs(t.a[0], False); eqs(t.a[1], False)
        for f in self.facts: eqs(f, True)
        if cases: 
            for i, v in cases.items():
                t = self.caseterm.get(i)
                if t is not None: eqs(t, v)
        if cases is None: self.ctx = c
        return c
    caseterm = {}
    def quick(self, c):
        v = evalbool(c, self.known)
        if v is not None: return v
        if c.op == 'not':
            v = self.quick(c.a[0])
            return None if v is None else not v
        if c.op == 'and':
            a = self.quick(c.a[0]); b = self.quick(c.a[1])
            if a is False or b is False: return False
            return True if a and b else None
        if c.op == 'or':
            a = self.quick(c.a[0]); b = self.quick(c.a[1])
            if a or b: return True
            return False if a is False and b is False else None
        if c.op in ('lt', 'le', 'eq'):
            try:
                ctx = self.getctx()
                d = sub(c.a[1], c.a[0])
                if type(d) is E and dagsize(d, 3000) >= 3000: return None
                n, den = ctx.nf(d)
                n = ctx.clear_rules(n) if n and den == PONE and not ctx.inv else n
                if not n: return c.op != 'lt'
                if den == PONE:
                    v = self.bybounds(ctx, n, c.op)
                    if v is not None: return v
                sg = self.polysign(ctx, n); sd = self.polysign(ctx, den)
                if sd and sg is not None:
                    # sd: sign of the denominator (nonzero by definedness), sg in {1,2,-1,-2}: >0, >=0, <0, <=0
                    if sd < 0: sg = -sg
                    if c.op == 'lt':
                        if sg == 1: return True
                        if sg < 0: return False
                    elif c.op == 'le':
                        if sg > 0: return True
                        if sg == -1: return False
                    elif sg in (1, -1): return False
            except (NeedCase, Undecided): return None
        return None
    # bounds known on a polynomial: facts p > c, matched by normal form up to scaling and constant
    def pkey(self, ctx, n):
        from poly import B, MASK
        k0 = n.get(0, 0); l = []
        for m, c in n.items():
            if m == 0: continue
            t = []; i = 0
            while m:
                e = m & MASK
                if e: t.append((ctx.canon(i), e))
                m >>= B; i += 1
            l.append((tuple(sorted(t)), c))
        if not l or len(l) > 4000: return None
        l.sort(key=lambda x: x[0])
        lead = l[0][1]
        return tuple((m, c/lead) for m, c in l), lead, k0      # not its hash: hash(-1) == hash(-2)
    def addbound(self, c, v):
        if c.op == 'not': return self.addbound(c.a[0], not v)
        if c.op == 'and' and v or c.op == 'or' and not v:
            self.addbound(c.a[0], v); self.addbound(c.a[1], v); return
        if c.op not in ('lt', 'le') : return
        try:
            d = sub(c.a[1], c.a[0])
            if type(d) is not E or dagsize(d, 1500) >= 1500: return
            ctx = self.getctx(); n, den = ctx.nf(d)
            if den != PONE: return
            if not ctx.inv: n = ctx.clear_rules(n)
            if not n: return
            k = self.pkey(ctx, n)
            if k is None: return
            key, lead, k0 = k
            strict = (c.op == 'lt') == v
            # v: lead*q + k0 >(=) 0 ; not v: lead*q + k0 <(=) 0
            b = -k0/lead
            lower = (lead > 0) == v
            lo, los, hi, his = self.bnd.get(key, (None, False, None, False))
            if lower:
                if lo is None or b > lo or (b == lo and strict): lo, los = b, strict
            else:
                if hi is None or b < hi or (b == hi and strict): hi, his = b, strict
            self.bnd[key] = (lo, los, hi, his)
        except (NeedCase, Undecided): return
    def bybounds(self, ctx, n, op):
        if not self.bnd: return None
        k = self.pkey(ctx, n)
        if k is None: return None
        b = self.bnd.get(k[0])
        if b is None: return None
        lo, los, hi, his = b; lead, k0 = k[1], k[2]
        l = None if lo is None else (lead*lo + k0, los)
        h = None if hi is None else (lead*hi + k0, his)
        if lead < 0: l, h = h, l
        pos = l is not None and (l[0] > 0 or l[0] == 0 and l[1]); nn = l is not None and l[0] >= 0
        ngt = h is not None and (h[0] < 0 or h[0] == 0 and h[1]); np_ = h is not None and h[0] <= 0
        if op == 'lt': return True if pos else False if np_ else None
        if op == 'le': return True if nn else False if ngt else None
        return False if pos or ngt else None
    def atomsign(self, ctx, i):
        a = ctx.atoms[i]
        if type(a) is not E: return 0
        if a.op == 'sqrt': return 2
        if i in ctx.inv:
            s = self.polysign(ctx, ctx.inv[i]); return 0 if s is None else (1 if s > 0 else -1)
        if a.op == 'f' and a.a[0] == 'exp': return 1
        k = self.known
        if k.get(cid('lt', ZERO, a)): return 1
        if k.get(cid('lt', a, ZERO)): return -1
        if k.get(cid('le', ZERO, a)): return 2
        if k.get(cid('le', a, ZERO)): return -2
        return 0
    def polysign(self, ctx, n):
        """1: >0, 2: >=0, -1: <0, -2: <=0, None: unknown, by monomial signs"""
        from poly import B, MASK
        if not n: return None
        tot = 0; strict = False
        for m, c in n.items():
            s = 1 if c > 0 else -1; st = True
            i = 0; x = m
            while x:
                e = x & MASK
                if e:
                    a = self.atomsign(ctx, i)
                    if e & 1:
                        if a == 0: return None
                        if a < 0: s = -s
                    if abs(a) != 1 and self.known.get(cid('eq', ctx.atoms[i], ZERO)) is not False: st = False
                x >>= B; i += 1
            if tot and s != tot: return None
            tot = s; strict = strict or st
        return tot if strict else 2*tot
    def simp(self, c):
        """comparisons rewritten through their normal form (smaller SMT queries)"""
        if type(c) is not E: return c
        if c.op in ('not', 'and', 'or'): 
            a = [self.simp(x) for x in c.a]
            return bnot(a[0]) if c.op == 'not' else band(*a) if c.op == 'and' else bor(*a)
        if c.op in ('lt', 'le', 'eq'):
            try:
                d = sub(c.a[1], c.a[0])
                if type(d) is E and dagsize(d, 3000) >= 3000: return c
                ctx = self.getctx()
                n, den = ctx.nf(d)
                if den != PONE or ctx.inv: return c
                n = ctx.clear_rules(n)
                if len(n) > 60: return c
                return cmp(c.op, ZERO, poly2e(ctx, n))
            except (NeedCase, Undecided): return c
        return c
    def decide(self, c):
        v = self.quick(c)
        if v is not None: return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]; self.pos += 1
            self.taken.append(v); self.addfact(c, v)
            return v
        self.pos += 1
        t, f = self.feasible(c)
        if t and f:
            self.work.append(self.taken + [False])
            v = True
        elif not t and not f:
            raise PathEnd('infeasible')
        else: v = t
        self.taken.append(v); self.addfact(c, v)
        return v
    def feasible(self, c):
        big = sum(dagsize(f, 1500) for f in self.facts[-40:]) + dagsize(c, 1500)
        if big > 6000: return True, True
        to = self.opts.get('branch_timeout', 0.5)
        c = self.simp(c)
        fs = self.relevant(c) if len(self.facts) > 12 else self.facts
        r, m = smt.check(fs + [c], self.units, to)
        t = r != 'unsat'
        r2, m = smt.check(fs + [bnot(c)], self.units, to)
        return t, r2 != 'unsat'
    # ---- exploration
    def run(self):
        f = self.mod.funcs.get(self.entry)
        if f is None or f.isdecl: raise Undecided('entry %s not found' % self.entry)
        self.work = [[]]; self.done = []
        n = 0; badpaths = 0; reruns = 0
        while self.work:
            if n >= self.maxpaths or time.time() > self.deadline:
                self.undecided.append('path budget: %d paths left unexplored' % len(self.work)); break
            prefix = self.work.pop()
            n += 1
            self.reset()
            self.begin_path(prefix)
            end = 'return'; info = None
            try:
                self.M.callf(f, [])
                if self.exit_ok is not None:
                    pass
            except PathEnd as e:
                end = e.kind; info = e.info
                if end in ('exit', 'abort'):
                    nm, cond = self.exit_ok or ('no-exit', False)
                    self.obs.append(Ob(nm, 'exit', cond))
                elif end == 'unreachable':
                    self.obs.append(Ob('unreachable', 'fault', False)); self.obs[-1].info = 'undefined behaviour reached'
            except Thrown as e:
                end = 'throw'
                nm, cond = self.exit_ok or ('no-uncaught-exception', False)
                self.obs.append(Ob(nm, 'exit', cond)); self.obs[-1].info = 'uncaught exception'
            except Fault as e:
                end = 'fault'; info = e.what
                self.obs.append(Ob('memory-safety', 'fault', False)); self.obs[-1].info = e.what
            except Undecided as e:
                end = 'undecided'; info = str(e)
                self.undecided.append(info)
            except Rerun as e:
                # the set of locations a loop changes has grown: redo every path through that loop
                p = e.prefix; k = len(p)
                def through(t): return t[:k] == p
                gone = sum(1 for t, o, d in self.done if through(t))
                self.done = [x for x in self.done if not through(x[0])]
                self.work = [t for t in self.work if not through(t)] + [p]
                reruns += 1
                if reruns > 400: self.undecided.append('loop generalisation does not stabilise'); break
                continue
            except RecursionError:
                end = 'undecided'; self.undecided.append('recursion depth')
            if end == 'infeasible': continue
            self.pathfeas = None
            dens = list(X.DENS.values())
            for o in self.obs: self.discharge(o)
            if end != 'undecided': self.domains(dens)
            self.done.append((list(self.taken), self.obs, dict(end=end, info=info, n=len(self.obs), decisions=len(self.taken))))
            if os.environ.get('VF_VERBOSE'):
                print('path %d: %s %s, %d facts, %d obligations, %s' % (n, end, info, len(self.facts), len(self.obs),
                      [o.name+':'+o.status for o in self.obs if o.status != 'proved'][:5]), file=sys.stderr)
            if sum(1 for o in self.obs if o.status == 'refuted'): badpaths += 1
            if badpaths >= 12:
                self.undecided.append('stopped after 12 paths with refuted obligations'); break
        self.results = [o for t, l, d in self.done for o in l]; self.paths = [d for t, l, d in self.done]
        return self.results
    def domains(self, dens):
        """every denominator met on the path is nonzero: proved here, or reported as assumed"""
        t0 = time.time()
        for d in dens[:60]:
            if d.id in self.den_seen: continue
            if self.known.get(cid('lt', ZERO, d)) or self.known.get(cid('eq', d, ZERO)) is False:
                self.den_proved += 1; continue
            r = 'unknown'
            if time.time()-t0 < 5 and dagsize(d, 400) < 400:
                r, m = smt.check(self.facts + [cmp('eq', d, ZERO)], self.units, 0.7)
            if r == 'unsat': self.den_proved += 1
            else: self.den_assumed += 1
            self.den_seen.add(d.id)
    den_proved = 0; den_assumed = 0
    # ---- discharge
    def discharge(self, o):
        t0 = time.time()
        try:
            if o.kind == 'eq': self.d_eq(o)
            elif o.kind == 'fault': self.d_false(o)
            else: self.d_bool(o)
        except TooBig as e: o.status = 'unknown'; o.info = 'normal form too large'
        except Undecided as e: o.status = 'unknown'; o.info = str(e)
        except RecursionError: o.status = 'unknown'; o.info = 'recursion'
        o.dt = time.time()-t0
    def d_false(self, o):
        r, m = smt.check(self.facts, self.units, self.z3_timeout, True)
        if r == 'unsat': o.status = 'proved'; o.by = 'z3 (path infeasible)'
        else: self.refute(o, m, r, True)
    def refute(self, o, m, r, always=False):
        """a candidate failure: confirm it numerically on the path"""
        env = self.sample(o, m)
        if env is not None: o.status = 'refuted'; o.model = env
        elif r == 'sat': o.status = 'refuted'; o.model = self.complete(m)
        else: o.status = 'unknown'; o.info = (o.info or '') + ' (not proved, no numeric counterexample)'
    def d_bool(self, o):
        c = o.a
        if c is UNDEF: raise Undecided('undefined value in obligation')
        if type(c) in (bool, int):
            if c: o.status = 'proved'; o.by = 'evaluation'; return
            return self.d_false(o)
        v = self.quick(c)
        if v is True: o.status = 'proved'; o.by = 'normal form'; return
        if v is False: return self.d_false(o)
        c = self.simp(c)
        if type(c) is bool:
            if c: o.status = 'proved'; o.by = 'normal form'; return
            return self.d_false(o)
        neg = bnot(c)
        if self.linunsat([f for f in self.facts] + [neg]): o.status = 'proved'; o.by = 'z3 (linear over monomials)'; return
        r, m = smt.check(self.facts+[neg], self.units, min(2.0, self.z3_timeout), True)
        if r == 'unknown':
            env = self.sample(o, None)
            if env is not None: o.status = 'refuted'; o.model = env; return
            r, m = smt.check(self.relevant(neg)+[neg], self.units, self.z3_timeout, True)
            if r == 'sat': r = 'unknown'
            if r == 'unknown':
                if smt.cvc5_check(self.facts+[neg], self.units, self.z3_timeout) == 'unsat':
                    o.status = 'proved'; o.by = 'cvc5'; return
        if r == 'unsat': o.status = 'proved'; o.by = 'z3'; return
        self.refute(o, m, r)
    # ---- linear reasoning over monomials (sound relaxation), splitting on conditional terms
    def linunsat(self, fs, cases=None, depth=0):
        import z3
        from poly import B
        cases = cases or {}
        if time.time() > self.deadline: return False
        ctx = self.getctx(cases or None)
        terms = [self.caseterm[i] if v else bnot(self.caseterm[i]) for i, v in cases.items()]
        mons = {}
        def mon(m):
            if m not in mons: mons[m] = z3.Real('m%d' % len(mons))
            return mons[m]
        # conditional terms that occur linearly stay conditional terms of the solver
        hasite = {}
        def linop(e):
            if type(e) is not E: return False
            if e.id in hasite: return hasite[e.id]
            r = e.op == 'ite' and not (cases and e.a[0].id in cases)
            if not r:
                if e.op in ('+', '-'): r = linop(e.a[0]) or linop(e.a[1])
                elif e.op == '*' and (type(e.a[0]) is Fraction or type(e.a[1]) is Fraction): r = linop(e.a[0]) or linop(e.a[1])
            hasite[e.id] = r
            return r
        linmemo = {}
        def lin(e):
            if type(e) is Fraction: return z3.RealVal(str(e))
            if type(e) is not E: raise NotLinear()
            if e.id in linmemo: return linmemo[e.id]
            if linop(e):
                if e.op == 'ite': r = z3.If(conv(e.a[0]), lin(e.a[1]), lin(e.a[2]))
                elif e.op == '+': r = lin(e.a[0]) + lin(e.a[1])
                elif e.op == '-': r = lin(e.a[0]) - lin(e.a[1])
                else: r = lin(e.a[0])*lin(e.a[1])
            else:
                if dagsize(e, 3000) >= 3000: raise NotLinear()
                try: n, den = ctx.nf(e)
                except TooBig: raise NotLinear()
                if den != PONE or len(n) > 400: raise NotLinear()
                r = z3.Sum([z3.RealVal(str(k))*(mon(m) if m else 1) for m, k in n.items()]) if n else z3.RealVal(0)
            linmemo[e.id] = r
            return r
        def conv(c):
            try: return conv1(c)
            except NotLinear: return z3.Bool('u%d' % c.id)
        def conv1(c):
            if type(c) in (bool, int): return z3.BoolVal(bool(c))
            if c.op == 'not': return z3.Not(conv(c.a[0]))
            if c.op == 'and': return z3.And(conv(c.a[0]), conv(c.a[1]))
            if c.op == 'or': return z3.Or(conv(c.a[0]), conv(c.a[1]))
            if c.op in ('lt', 'le', 'eq'):
                d = sub(c.a[1], c.a[0])
                if type(d) is float or d is UNDEF: return z3.Bool('u%d' % c.id)
                if type(d) is E and linop(d):
                    s = lin(d)
                    return s > 0 if c.op == 'lt' else s >= 0 if c.op == 'le' else s == 0
                if type(d) is E and dagsize(d, 3000) >= 3000: return z3.Bool('u%d' % c.id)
                try: n, den = ctx.nf(d) if type(d) is E else ({0: d} if d else {}, PONE)
                except TooBig: return z3.Bool('u%d' % c.id)
                if den != PONE or len(n) > 400: return z3.Bool('u%d' % c.id)
                s = z3.Sum([z3.RealVal(str(k))*(mon(m) if m else 1) for m, k in n.items()]) if n else z3.RealVal(0)
                return s > 0 if c.op == 'lt' else s >= 0 if c.op == 'le' else s == 0
            return z3.Bool('u%d' % c.id)
        try: zs = [conv(f) for f in fs + terms]
        except NeedCase as nc:
            if depth >= 10: return False
            c = nc.cond
            while c.op in ('not', 'and', 'or'):
                k = [x for x in c.a if evalbool(x, ctx.iteval) is None]
                c = k[0]
            self.caseterm[c.id] = c
            for v in (True, False):
                nc2 = dict(cases); nc2[c.id] = v
                if not self.linunsat(fs, nc2, depth+1): return False
            return True
        s = z3.Solver(); s.set('timeout', 2000)
        for z in zs: s.add(z)
        for m, x in list(mons.items()):
            k = m; even = True
            while k:
                if k & ((1 << B)-1) & 1: even = False; break
                k >>= B
            if even: s.add(x >= 0)
        t0 = time.time(); r = str(s.check())
        smt.STATS['queries'] += 1; smt.STATS['time'] += time.time()-t0; smt.STATS[r] = smt.STATS.get(r, 0)+1
        return r == 'unsat'
    def relevant(self, c):
        """path facts that share variables with c (transitively once)"""
        vs = fvars(c)
        return [f for f in self.facts if fvars(f) & vs]
    def d_eq(self, o):
        a, b = o.a, o.b
        if type(a) is float or type(b) is float:
            if type(a) is float and type(b) is float and (a == b or (a != a and b != b)):
                o.status = 'proved'; o.by = 'evaluation'; return
            return self.d_false(o)
        if a is UNDEF or b is UNDEF:
            o.info = 'uninitialised value'
            return self.d_false(o) if (a is UNDEF) != (b is UNDEF) else self.d_false(o)
        if a is b or (type(a) is Fraction and type(b) is Fraction and a == b):
            o.status = 'proved'; o.by = 'identical terms'; return
        if type(a) is Fraction and type(b) is Fraction and abs(a-b) <= abs(a+b)*Fraction(1, 10**13):
            o.status = 'proved'; o.by = 'evaluation (to 1e-13)'; return
        d = sub(a, b)
        bad = self.cases(d, {}, 0)
        if bad is None: o.status = 'proved'; o.by = 'polynomial normal form'; return
        # not identically zero in some case
        if self.nearzero(o): return
        if sum(1 for t, l, d in self.done for p in l if p.name == o.name and p.status == 'refuted') + sum(1 for p in self.obs if p.name == o.name and p.status == 'refuted') >= 3:
            o.status = 'skipped'; o.info = 'same obligation already refuted'; return
        neg = bnot(cmp('eq', a, b))
        fs = self.facts + [neg]
        if type(neg) is not E or dagsize(neg, 8000) < 8000:
            r, m = smt.check(fs, self.units, min(2.0, self.z3_timeout), True)
            if r == 'unknown':
                env = self.sample(o, None)
                if env is not None: o.status = 'refuted'; o.model = env; return
                r, m = smt.check(fs, self.units, self.z3_timeout, True)
            if r == 'unsat': o.status = 'proved'; o.by = 'z3'; return
        else: r, m = 'unknown', None
        self.refute(o, m, r)
    def nearzero(self, o):
        """literals in the source are decimal approximations: accept a residual
        polynomial whose coefficients are all at rounding level of the two sides"""
        try:
            ctx = self.getctx(self.lastcases)
            na, da = ctx.nf(o.a); nb, db = ctx.nf(o.b)
            from poly import psub
            if da != db: return False
            scale = max([abs(float(c)) for c in list(na.values())+list(nb.values())] or [1.0])
            diff = psub(na, nb)
            if not diff: return False
            if all(abs(c) <= Fraction(2, 10**14)*(abs(na.get(m, 0)) + abs(nb.get(m, 0)) + Fraction(scale)*Fraction(1, 10**3)) for m, c in diff.items()):
                o.status = 'proved'; o.by = 'normal form up to rounding of source literals (<= 2e-14 relative)'
                return True
        except (NeedCase, Undecided): pass
        return False
    def cases(self, d, cases, depth):
        """None if d == 0 in all cases, else the failing case"""
        ctx = self.getctx(cases or None)
        self.lastcases = cases or None
        try:
            if ctx.iszero(d): return None
            self.lastcases = cases or None
            if cases:
                # the case itself may contradict the path
                terms = [self.caseterm[i] if v else bnot(self.caseterm[i]) for i, v in cases.items()]
                if self.linunsat(list(self.facts), cases, 9): return None
                r, m = smt.check(self.facts + terms, self.units, 1.0)
                if r == 'unsat': return None
            return cases
        except NeedCase as nc:
            if depth >= 14: raise Undecided('too many case splits')
            c = nc.cond
            while c.op in ('not', 'and', 'or') :
                # split on an undetermined leaf
                k = [x for x in c.a if evalbool(x, ctx.iteval) is None]
                c = k[0]
            self.caseterm[c.id] = c
            for v in (True, False):
                nc2 = dict(cases); nc2[c.id] = v
                r = self.cases(d, nc2, depth+1)
                if r is not None: return r
            return None
    # ---- numeric sampling of the path
    def complete(self, m):
        env = {}
        rnd = random.Random(1)
        for kind, name, lo, hi in self.inputs:
            if m and name in m: env[name] = m[name]
            elif kind == 'int': env[name] = self.ints[name]
            else: env[name] = rnd.uniform(lo if lo is not None else -1, hi if hi is not None else 1)
        return env
    def sample(self, o, m, tries=60):
        rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        if any(dagsize(f, 20000) >= 20000 for f in self.facts): tries = 10
        ev = smt.exacteval if sum(dagsize(f, 5000) for f in self.facts) < 20000 else smt.numeval
        for k in range(tries):
            env = {}
            grp = {}
            for kind, name, lo, hi in self.inputs:
                if m is not None and k == 0 and name in m: env[name] = m[name]; continue
                if kind == 'int': env[name] = self.ints[name]
                elif kind == 'unit': grp.setdefault(lo, []).append(name)
                else:
                    l = -2.0 if lo is None else lo; h = 2.0 if hi is None else hi
                    if lo is not None and hi is None: h = lo+3
                    if hi is not None and lo is None: l = hi-3
                    env[name] = round(rnd.uniform(l, h)*2**20)/2**20 if kind != 'nat' else float(rnd.randint(1, 40))
            for g, ns in grp.items():
                v = [rnd.gauss(0, 1) for _ in ns]; s = math.sqrt(sum(x*x for x in v))
                for n, x in zip(ns, v): env[n] = x/s
            memo = {}
            try:
                ok = True
                for f in self.facts:
                    r = ev(f, env, memo)
                    if r is not True and r != 1: ok = False; break
                if not ok: continue
                if o.kind == 'eq' and type(o.a) is not float and type(o.b) is not float and o.a is not UNDEF and o.b is not UNDEF:
                    x = ev(o.a, env, memo); y = ev(o.b, env, memo)
                    if x != x or y != y: continue
                    x = float(x); y = float(y)
                    if abs(x-y) > 1e-7*max(abs(x), abs(y)) + 1e-11: return env
                    continue
                if o.kind in ('bool', 'exit') and type(o.a) is E:
                    if not ev(o.a, env, memo): return env
                    continue
                return env
            except smt.Ambiguous: continue
            except (Undecided, KeyError, OverflowError): return None
        return None

def poly2e(ctx, n):
    from poly import B, MASK
    r = ZERO
    for m, c in n.items():
        t = c; i = 0
        while m:
            for _ in range(m & MASK): t = mul(t, ctx.atoms[i])
            m >>= B; i += 1
        r = add(r, t)
    return r
_fv = {}
def fvars(e):
    if type(e) is not E: return frozenset()
    r = _fv.get(e.id)
    if r is None:
        if e.op in ('v', 'iv', 'bv'): r = frozenset([e.a[0]])
        else:
            r = frozenset()
            for k in e.a:
                if type(k) is E: r |= fvars(k)
        _fv[e.id] = r
    return r
_ds = {}
def dagsize(e, lim):
    if type(e) is not E: return 1
    r = _ds.get(e.id)
    if r is not None: return r
    seen = set(); st = [e]
    while st and len(seen) < lim:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        for k in t.a:
            if type(k) is E: st.append(k)
    _ds[e.id] = len(seen)
    return len(seen)
def isintexpr(e, names):
    if type(e) is Fraction: return e.denominator == 1
    if type(e) is not E: return False
    if e.op == 'v': return e.a[0] in names
    if e.op in ('+', '-', '*'): return isintexpr(e.a[0], names) and isintexpr(e.a[1], names)
    return False
def cid(op, a, b):
    c = cmp(op, a, b)
    return c.id if type(c) is E else -1

# ---------------------------------------------------------------- harness API
API = {}
def api(f): API[f.__name__] = f; return f
def ex(M): return M.decider.__self__
@api
def vf_real(M, n):
    s = ex(M); nm = s.uname(M.cstr(n)); s.inputs.append(('real', nm, None, None)); return var(nm)
@api
def vf_range(M, n, lo, hi):
    s = ex(M); nm = s.uname(M.cstr(n)); s.inputs.append(('real', nm, float(lo), float(hi)))
    v = var(nm); s.addfact(cmp('le', lo, v)); s.addfact(cmp('le', v, hi)); return v
@api
def vf_pos(M, n):
    s = ex(M); nm = s.uname(M.cstr(n)); s.inputs.append(('real', nm, 0.05, None))
    v = var(nm); s.addfact(cmp('lt', ZERO, v)); return v
@api
def vf_nat(M, n):
    s = ex(M); nm = s.uname(M.cstr(n)); s.inputs.append(('nat', nm, 1.0, 40.0))
    s.intvars.add(nm); s.addfact(cmp('le', ONE, var(nm))); return mk('iv', nm)
@api
def vf_unit(M, n, p):
    s = ex(M); nm = s.uname(M.cstr(n))
    vs = [var(nm+c) for c in ('.x', '.y', '.z')]
    for v in vs: s.inputs.append(('unit', v.a[0], nm, None))
    s.units.append(vs)
    s.rules.append((vs[2], sub(sub(ONE, mul(vs[0], vs[0])), mul(vs[1], vs[1]))))
    s.ctx = None
    for i, v in enumerate(vs): M.store(p+8*i, 8, v)
@api
def vf_unit2(M, n, p):
    s = ex(M); nm = s.uname(M.cstr(n))
    vs = [var(nm+c) for c in ('.x', '.y')]
    for v in vs: s.inputs.append(('unit', v.a[0], nm, None))
    s.units.append(vs)
    s.rules.append((vs[1], sub(ONE, mul(vs[0], vs[0]))))
    s.ctx = None
    for i, v in enumerate(vs): M.store(p+8*i, 8, v)
@api
def vf_int(M, n, lo, hi):
    s = ex(M); nm = s.uname(M.cstr(n))
    lo = M.sidx(lo, 32); hi = M.sidx(hi, 32)
    # enumerate by forking
    if s.pos < len(s.prefix):
        v = s.prefix[s.pos]; s.pos += 1
    else:
        s.pos += 1; v = lo
        for k in range(hi, lo, -1): s.work.append(s.taken + [k])
    s.taken.append(v); s.ints[nm] = v
    s.inputs.append(('int', nm, lo, hi))
    return v & 0xffffffff
@api
def vf_bool(M, n): return vf_int(M, n, 0, 1) != 0
@api
def vf_symbool(M, n):
    s = ex(M); nm = s.uname(M.cstr(n)); return mk('bv', nm)
@api
def vf_assume(M, c):
    s = ex(M)
    if type(c) is E and c.op == 'b2i': c = c.a[0]
    if c is UNDEF: raise Undecided('assume of an undefined value')
    if type(c) in (bool, int):
        if not c: raise PathEnd('infeasible')
        return
    v = s.quick(c)
    if v is False: raise PathEnd('infeasible')
    if v is None:
        s.addfact(c)
        if smt.check(s.facts, s.units, 1.0)[0] == 'unsat': raise PathEnd('infeasible')
@api
def vf_prefer(M, c): pass
@api
def vf_eq(M, n, a, b, scale):
    s = ex(M); s.obs.append(Ob(M.cstr(n), 'eq', a, b))
@api
def vf_ensures(M, n, c):
    s = ex(M)
    if type(c) is E and c.op == 'b2i': c = c.a[0]
    if type(c) is int: c = bool(c)
    s.obs.append(Ob(M.cstr(n), 'bool', c))
@api
def vf_exit_begin(M, n, c):
    s = ex(M)
    if type(c) is E and c.op == 'b2i': c = c.a[0]
    if type(c) is int: c = bool(c)
    s.exit_ok = (M.cstr(n), c)
@api
def vf_exit_end(M):
    s = ex(M); n, c = s.exit_ok; s.exit_ok = None
    s.obs.append(Ob(n, 'bool', bnot(c)))
@api
def vf_uf(M, n, k, p):
    return mk('f', M.cstr(n), *[M.loadd(p+8*i) for i in range(k)])
@api
def vf_cover(M, n):
    s = ex(M); nm = M.cstr(n); s.covers[nm] = s.covers.get(nm, 0)+1
@api
def vf_locked(M): return len(M.locks)
@api
def vf_same(M, n, a, b, len_):
    """frame condition: the bytes [a,a+len) equal the bytes [b,b+len)"""
    s = ex(M); nm = M.cstr(n); ln = M.cint(len_)
    o = 0
    while o < ln:
        ca = M.mem.get(a+o); cb = M.mem.get(b+o)
        if ca is None and cb is None: o += 1; continue
        if ca is None or cb is None or ca[0] != cb[0]:
            va = M.load(a+o, 1); vb = M.load(b+o, 1)
            s.obs.append(Ob(nm, 'bool', va == vb)); o += 1; continue
        va, vb = ca[1], cb[1]
        if va is not vb and not (type(va) in (int, Fraction) and va == vb):
            if type(va) is int and type(vb) is int: s.obs.append(Ob(nm, 'bool', False))
            else: s.obs.append(Ob(nm, 'eq', bits2d(va) if type(va) is int else va, bits2d(vb) if type(vb) is int else vb))
        o += ca[0]
    s.obs.append(Ob(nm, 'bool', True))

@api
def vf_contract(M, n, stub):
    """calls of the functions whose name matches are replaced by their contract (the stub)"""
    import re as _re
    s = ex(M); pat = _re.compile(M.cstr(n)); f = M.faddr.get(M.cint(stub))
    if f is None: raise Undecided('contract stub')
    k = 0
    for name, g in M.mod.funcs.items():
        if pat.search(name) and g is not f and not name.startswith(('vfstub', 'vc_')):
            M.over[name] = f; k += 1
    s.contract_uses[M.cstr(n)] = k
    return k

# ---- lock discipline: between begin and end, every store to shared (heap or global) memory, and the
# read that precedes it, must be made while exactly one mutex is held
@api
def vf_watch_begin(M):
    s = ex(M); s.watch = dict(bad=0, stores=0, lock=0, unl=set())
    W = s.watch; base_store = Machine.store; base_load = Machine.load
    def shared(a):
        r = M.block(a); return r is not None and r[2] in ('heap', 'global')
    def store(a, n, v):
        if type(a) is not int: a = M.cptr(a)
        if shared(a):
            W['stores'] += 1
            if len(M.locks) != 1 or a in W['unl']: W['bad'] += 1
            else: W['lock'] = next(iter(M.locks))
        base_store(M, a, n, v)
    def load(a, n):
        if type(a) is not int: a = M.cptr(a)
        if not M.locks and n == 8 and shared(a): W['unl'].add(a)
        elif M.locks: W['unl'].discard(a)
        return base_load(M, a, n)
    M.store = store; M.load = load
@api
def vf_watch_end(M):
    s = ex(M); M.__dict__.pop('store', None); M.__dict__.pop('load', None)
    return s.watch['bad']
@api
def vf_watch_lock(M): return ex(M).watch['lock']

# ---- parallel loops: the footprint of every iteration.  Two iterations may not touch a location that one of them
# modifies, unless both do it while holding the same mutex; memory allocated during an iteration is its own.
class _Par:
    __slots__ = ('top', 'k', 'w', 'r')
def _par_hooks(M):
    if getattr(M, 'parguard', None) is None: M.parguard = 0
    def note(a, n, wr):
        if M.parguard or M.atom or any(x <= a < y for x, y in M.tls): return
        lk = frozenset(M.locks)
        for c in M.par:
            if c.k is None or a >= c.top and a >= 0x1000000000: continue
            d = c.w if wr else c.r
            for x in range(a, a + n):
                e = d.get(x)
                if e is None: d[x] = {c.k: lk}
                else: e[c.k] = lk if c.k not in e else e[c.k] & lk
    def store(a, n, v):
        if type(a) is not int: a = M.cptr(a)
        note(a, n, True); Machine.store(M, a, n, v)
    def load(a, n):
        if type(a) is not int: a = M.cptr(a)
        note(a, n, False); return Machine.load(M, a, n)
    def memcpy(d, s, n):
        d = M.cptr(d); s = M.cptr(s); n = M.cint(n)
        note(s, n, False); note(d, n, True); Machine.memcpy(M, d, s, n)
    def memset(d, v, n):
        d = M.cptr(d); n = M.cint(n)
        note(d, n, True); Machine.memset(M, d, v, n)
    M.store = store; M.load = load; M.memcpy = memcpy; M.memset = memset
@api
def vf_par_begin(M):
    c = _Par(); c.top = M.top; c.k = None; c.w = {}; c.r = {}
    M.par.append(c)
    if len(M.par) == 1: _par_hooks(M)
@api
def vf_par_iter(M, k, f):
    c = M.par[-1]; c.k = M.cint(k) if M.cint(k) != 0xffffffff else None
    c.top = M.top
@api
def vf_par_end(M):
    s = ex(M); c = M.par.pop(); bad = None
    for x, W in c.w.items():
        R = c.r.get(x)
        ks = set(W) | set(R or ())
        if len(ks) < 2: continue
        for k, l in W.items():
            for D in (W, R or ()):
                for j in D:
                    if j != k and not (l & D[j]): bad = bad or (x, k, j)
        if bad: break
    if bad:
        b = M.block(bad[0])
        s.parnote = 'iterations %d and %d share offset %d of a %s block of %d bytes' % (bad[1], bad[2], bad[0]-b[0], b[2], b[1])
    s.obs.append(Ob('the iterations of a parallel loop share nothing that one of them modifies, except under one lock', 'bool', bad is None))
    if not M.par:
        for n in ('store', 'load', 'memcpy', 'memset'): M.__dict__.pop(n, None)

# ---------------------------------------------------------------- loop cuts
def _isheader(f, b):
    h = getattr(f, 'hdr', None)
    if h is None: h = f.hdr = {}
    if b in h: return h[b]
    succ = f.cfg[0]
    preds = [u for u, l in succ.items() if b in l]
    def reach(start, without):
        seen = set(); st = [start] if start != without else []
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            for y in succ.get(x, ()):
                if y != without and y not in seen: st.append(y)
        return seen
    fromentry = reach(0, b)
    allr = reach(0, None)
    h[b] = any(u in allr and u not in fromentry for u in preds)
    return h[b]
class Rerun(Exception): pass
def _kind(n, *vs):
    vs = [v for v in vs if v is not UNDEF and v is not None]
    if any(type(v) in (Fraction, float) or type(v) is E and v.op not in ('b2i', 'iv', 'i+', 'i*', 'bv', 'lt', 'le', 'eq', 'not', 'and', 'or') for v in vs): return 'real'
    if n == 1: return 'bool'
    if n == 4: return 'int'
    if n == 8 and all(type(v) is int and 0 <= v < 2**31 or type(v) is E for v in vs): return 'int'
    return None
@api
def vf_cut(M, name, inv):
    """loop cut at the loop header of the calling function's caller: check the invariant on entry,
    generalise everything the loop changes (inferred, checked at the back edge), assume the invariant,
    check it again at the back edge and end the path there"""
    s = ex(M); nm = M.cstr(name)
    # frame of the function that contains the loop: the caller of the stub
    if len(M.frames) < 2: return 0
    fr = M.frames[-2]; f, R, b = fr[0], fr[1], fr[2]
    if not _isheader(f, b): return 0
    phis = f.cfg[1].get(b, [])
    st = s.cuts.get((id(fr), b))
    W = s.cutW.setdefault((nm, f.name, b, tuple(s.cutpre.setdefault((id(fr), b), list(s.taken)))), {})
    def run(mode): M.callptr(inv, [mode])
    if st is None:
        run(0)
        st = dict(snap=dict(M.mem), top=M.top, phase=1, frame=fr, regs={r: R[r] for r, t in phis})
        s.cuts[(id(fr), b)] = st
        # generalise
        for key, k in W.items():
            s.hav = getattr(s, 'hav', 0)
            v = _fresh(s, M, nm, key, k)
            if key[0] == 'r': st['regs'][key[1]] = v
            else:
                c = M.mem.get(key[1])
                M.store(key[1], key[2], v)
        st['newregs'] = dict(st['regs'])
        st['regs'] = {r: R[r] for r, t in phis}
        for r, v in st['newregs'].items(): R[r] = v
        raise LoopRestart(fr, b)
    if st['phase'] == 1:
        st['phase'] = 2
        run(1)
        return 1
    # back edge
    run(0)
    new = {}
    for r, t in phis:
        if ('r', r) in W: continue
        if _differs(s, R[r], st['regs'][r]): new[('r', r)] = 'real' if M.mod.res(t).k == 'double' else 'int' if M.mod.res(t).k == 'i' and M.mod.res(t).n > 1 else 'bool' if M.mod.res(t).k == 'i' else None
    _memdiff(s, M, st, W, new)
    if new:
        for k, v in new.items():
            if v is None: raise Undecided('loop cut %s: cannot generalise %s' % (nm, k))
        W.update(new)
        e = Rerun(); e.prefix = s.cutpre[(id(fr), b)]
        raise e
    raise PathEnd('loopcut')
@api
def vf_point(M, name, inv):
    """cut at an arbitrary program point (the call of this function) that executions pass repeatedly.  First arrival:
    check the invariant, generalise every location and register found to change between two arrivals, assume the
    invariant.  Next arrival at the same point with the same name: check the invariant, check that nothing outside
    of the generalised set has changed, end the path."""
    s = ex(M); nm = M.cstr(name)
    frames = M.frames
    key = (nm, tuple((fr[0].name, fr[2]) for fr in frames))
    st = s.cuts.get(key)
    W = s.cutW.setdefault((key, tuple(s.cutpre.setdefault(key, list(s.taken)))), {})
    def run(mode): M.callptr(inv, [mode])
    if st is None:
        run(0)
        st = dict(snap=dict(M.mem), top=M.top, regs=[list(fr[1]) for fr in frames])
        s.cuts[key] = st
        for k, kind in W.items():
            if k[0] == 'r': frames[k[1]][1][k[2]] = UNDEF if kind == 'dead' else _fresh(s, M, nm, k, kind)
            else: M.store(k[1], k[2], _fresh(s, M, nm, k, kind))
        run(1)
        return 1
    run(0)
    new = {}
    for d, fr in enumerate(frames):
        old = st['regs'][d]
        for r, v in enumerate(fr[1]):
            if ('r', d, r) in W: continue
            o = old[r] if r < len(old) else None
            if v is o: continue
            if type(v) in (list, tuple, str) or type(o) in (list, tuple, str):
                if v != o: new[('r', d, r)] = 'dead'
                continue
            if o is None or v is None or v is UNDEF or o is UNDEF: new[('r', d, r)] = 'dead'; continue
            if _differs(s, v, o): new[('r', d, r)] = _regkind(v, o)
    _memdiff(s, M, st, W, new)
    if new:
        for k, v in new.items():
            if v is None: raise Undecided('loop cut %s: cannot generalise %s' % (nm, k))
        W.update(new)
        e = Rerun(); e.prefix = s.cutpre[key]
        raise e
    raise PathEnd('loopcut')
def _regkind(*vs):
    if any(type(v) in (Fraction, float) or type(v) is E and v.op not in ('b2i', 'iv', 'i+', 'i*', 'bv', 'lt', 'le', 'eq', 'not', 'and', 'or') for v in vs): return 'real'
    if all(type(v) is bool or type(v) is E and v.op in ('b2i', 'lt', 'le', 'eq', 'not', 'and', 'or') for v in vs): return 'bool'
    if any(type(v) is int and v > 2**31 for v in vs): return 'dead'
    return 'int'
def _differs(s, x, y):
    if x is y: return False
    if x is UNDEF or y is UNDEF: return True
    tx, ty = type(x), type(y)
    if tx is int and ty is Fraction: x = bits2d(x); tx = Fraction
    if ty is int and tx is Fraction: y = bits2d(y); ty = Fraction
    if tx in (int, bool, Fraction) and ty in (int, bool, Fraction): return x != y
    if tx is float and ty is float: return not (x == y or x != x and y != y)
    if tx is int and ty is E: x = bits2d(x)
    if ty is int and tx is E: y = bits2d(y)
    try: return not s.getctx().iszero(sub(x, y))
    except (NeedCase, Undecided): return True
def _memdiff(s, M, st, W, new):
    snap = st['snap']; top = st['top']
    for a, (n, v) in snap.items():
        if ('m', a, n) in W: continue
        c = M.mem.get(a)
        if c is not None and c[0] == n and c[1] is v: continue
        blk = M.block(a)
        if blk and blk[2] == 'freed': new[('x', a, n)] = None; continue
        try: cv = c[1] if c is not None and c[0] == n else Machine.load(M, a, n)
        except Undecided: cv = None
        if cv is None or _differs(s, cv, v): new[('m', a, n)] = _kind(n, cv, v)
    for a, (n, v) in M.mem.items():
        if a in snap or ('m', a, n) in W: continue
        blk = M.block(a)
        if blk is None: continue
        if a >= 0x1000000000 and blk[0] >= top: continue
        if a < 0x1000000000 and blk[2] == 'opaque': continue
        if a < 0x1000000000 and M.ginit and M.ginit.get('mem', {}).get(a) == (n, v): continue      # initial value of a global met for the first time
        new[('m', a, n)] = _kind(n, v)
def _fresh(s, M, nm, key, k):
    n = s.uname('havoc.%s' % nm)
    if k == 'real': s.inputs.append(('real', n, None, None)); return var(n)
    if k == 'int': s.inputs.append(('nat', n, 1.0, 40.0)); s.intvars.add(n); return mk('iv', n)
    if k == 'bool':
        n2 = s.uname('havocb.%s' % nm); s.inputs.append(('real', n2, None, None))
        return mk('b2i', cmp('lt', ZERO, var(n2)))
    raise Undecided('generalise ' + str(key))
