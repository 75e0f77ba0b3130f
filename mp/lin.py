"""Linear relations between integers, pointers and container sizes: affine equalities (Karr) plus a finite set of
   inequalities with one/two-step entailment. Forward dataflow over the inlined graph, joins at merge points,
   widening after a few visits. Sound for the relations it keeps; everything else is forgotten."""
from fractions import Fraction
import heapq, math
from .prog import *
from .flow import Flow, NEG, SWAP, allterms, atoms_of, Facts

# ------------------------------------------------------------------ linear forms: (const, frozenset((sym, coef)))
def L(c=0, *pairs):
    d = {}
    for s, k in pairs: d[s] = d.get(s, 0) + k
    return mk(c, d)
def mk(c, d):
    return (c, frozenset((s, k) for s, k in d.items() if k != 0))
def ladd(a, b, k=1):
    if not b[1]: return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + k * c
    return mk(a[0] + k * b[0], d)
def lmul(a, k): return mk(a[0] * k, {s: c * k for s, c in a[1]})
def lshow(a):
    o = ' '.join('%+g*%s' % (float(k), show(s) if isinstance(s, tuple) else s) for s, k in sorted(a[1], key=lambda x: str(x)))
    return '%s %+g' % (o, float(a[0]))

class LS:
    """immutable-by-convention linear state"""
    __slots__ = ('eq', 'ge', 'defs', '_k', '_b')
    def __init__(self, eq=None, ge=frozenset(), defs=None):
        self.eq = eq if eq is not None else {}
        self.ge = ge
        self.defs = defs if defs is not None else {}
        self._k = None; self._b = None
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.eq.items()), self.ge, frozenset(self.defs.items()))
        return self._k
    def canon(self, l):
        eq = self.eq
        if not any(s in eq for s, _ in l[1]): return l
        r = (l[0], frozenset())
        for s, k in l[1]:
            e = eq.get(s)
            r = ladd(r, e, k) if e is not None else ladd(r, (0, frozenset([(s, 1)])), k)
        return r
    def assume_eq(self, l):
        l = self.canon(l)
        if not l[1]: return self if l[0] == 0 else None
        # solve for the symbol that sorts last (temporaries first)
        s, k = max(l[1], key=lambda p: (pivot_rank(p[0]), str(p[0])))
        r = lmul(ladd(l, (0, frozenset([(s, k)])), -1), Fraction(-1, 1) / k)
        r = tidy(r)
        eq = {}
        for p, e in self.eq.items():
            c = dict(e[1]).get(s)
            eq[p] = e if c is None else tidy(ladd(ladd(e, (0, frozenset([(s, c)])), -1), r, c))
        eq[s] = r
        n = LS(eq, frozenset(), self.defs)
        return n.addges(self.ge)
    def addges(self, gs):
        cur = self
        out = {}
        eqs = []
        for g in gs:
            g = tidy(cur.canon(g))
            if not g[1]:
                if g[0] < 0: return None
                continue
            if any(k not in (1, -1) for s, k in g[1]):
                g = integral(g)
                if any(abs(k) > 4 for s, k in g[1]): continue
            if len(g[1]) > 8: continue
            o = out.get(g[1])
            if o is None or g[0] < o: out[g[1]] = g[0]
        for t, c in out.items():
            neg = frozenset((s, -k) for s, k in t)
            if neg in out:
                if c + out[neg] < 0: return None
                if c + out[neg] == 0: eqs.append((c, t))
        n = LS(self.eq, frozenset((c, t) for t, c in out.items()), self.defs)
        for e in eqs:
            if n.canon(e)[1]:
                n = n.assume_eq(e)
                if n is None: return None
        return n
    def assume_ge(self, l):
        l = self.canon(l)
        if not l[1]: return self if l[0] >= 0 else None
        if self.ent(l): return self
        return self.addges(self.ge | {l})
    def enteq(self, l):
        l = self.canon(l)
        return not l[1] and l[0] == 0
    def ent(self, l, nonneg=None):
        """l >= 0 ?"""
        l = self.canon(l)
        if not l[1]: return l[0] >= 0
        return self.minslack(l) <= 0
    def minslack(self, l):
        """least k such that l + k >= 0 follows from the inequalities (linear programming duality); 99 when none"""
        c, t = l
        if not t: return -c
        if self._b is None: self._b = {}
        b = self._b.get(t)
        if b is None: b = self._b[t] = bound(t, self.ge)
        return b - c if b != 99 else 99
    def slack(self, g):
        g = self.canon(g)
        k = self.minslack(g)
        if k <= 0: return 0
        return k if k <= 4 else None
    def reduce(self):
        """drop inequalities that the others imply"""
        if len(self.ge) < 2: return self
        cur = set(self.ge)
        for g in sorted(self.ge, key=lambda g: (-len(g[1]), str(g))):
            cur.discard(g)
            b = bound(g[1], cur)
            if b == 99 or b > g[0]: cur.add(g)
        return self if len(cur) == len(self.ge) else LS(self.eq, frozenset(cur), self.defs)
    def forget(self, x):
        eq = self.eq; ge = self.ge
        df = self.defs
        if any(x == v or contains(t, x) for v, t in df.items()):
            df = {v: t for v, t in df.items() if v != x and not contains(t, x)}
        if x in eq:
            eq = {p: e for p, e in eq.items() if p != x}
            return LS(eq, ge, df)
        row = None
        for p, e in eq.items():
            for s, k in e[1]:
                if s == x: row = (p, e, k)
        if row:
            p, e, k = row
            # x = (p - (e - kx)) / k
            r = ladd((0, frozenset([(p, 1)])), ladd(e, (0, frozenset([(x, k)])), -1), -1)
            r = tidy(lmul(r, Fraction(1, 1) / k))
            neq = {}
            for q, f in eq.items():
                if q == p: continue
                c = dict(f[1]).get(x)
                neq[q] = f if c is None else tidy(ladd(ladd(f, (0, frozenset([(x, c)])), -1), r, c))
            n = []
            for g in ge:
                c = dict(g[1]).get(x)
                n.append(g if c is None else tidy(ladd(ladd(g, (0, frozenset([(x, c)])), -1), r, c)))
            return LS(neq, frozenset(), df).addges(n)
        pos = []; neg = []; rest = []
        for g in ge:
            c = dict(g[1]).get(x)
            if c is None: rest.append(g)
            elif c > 0: pos.append((g, c))
            else: neg.append((g, -c))
        if not pos and not neg:
            return self if df is self.defs else LS(eq, ge, df)
        if len(pos) * len(neg) <= 60:
            for a, ca in pos:
                for b, cb in neg:
                    rest.append(tidy(ladd(lmul(a, cb), lmul(b, ca))))
        r = LS(eq, frozenset(), df).addges(rest)
        if r is None: return LS(eq, frozenset(), df)
        return r.reduce() if len(pos) * len(neg) > 2 else r
    def forget_in(self, t):
        """forget every symbol that mentions term t"""
        n = self
        syms = set(self.eq)
        for e in self.eq.values(): syms |= set(s for s, _ in e[1])
        for g in self.ge: syms |= set(s for s, _ in g[1])
        for s in syms:
            if isinstance(s, tuple) and contains(s, t): n = n.forget(s)
        if any(contains(v, t) or contains(d, t) for v, d in n.defs.items()):
            n = LS(n.eq, n.ge, {v: d for v, d in n.defs.items() if not contains(v, t) and not contains(d, t)})
        return n
    def syms(self):
        out = set(self.eq)
        for e in self.eq.values(): out |= set(s for s, _ in e[1])
        for g in self.ge: out |= set(s for s, _ in g[1])
        return out
    def assign(self, x, l):
        if l is None: return self.forget(x)
        c = dict(l[1]).get(x)
        if c is None:
            n = self.forget(x)
            return n.assume_eq(ladd((0, frozenset([(x, 1)])), l, -1))
        if c not in (1, -1): return self.forget(x)
        # x_new = c*x + r  ->  x_old = c*(x_new - r)
        tmp = ('ghost', 'old')
        n = self.rename(x, tmp)
        n = n.assume_eq(ladd((0, frozenset([(x, 1)])), ladd(ladd(l, (0, frozenset([(x, c)])), -1), (0, frozenset([(tmp, c)]))), -1))
        if n is None: return None
        return n.forget(tmp)
    def rename(self, x, y):
        def rn(l):
            if not any(s == x for s, _ in l[1]): return l
            return mk(l[0], {(y if s == x else s): k for s, k in l[1]})
        eq = {(y if p == x else p): rn(e) for p, e in self.eq.items()}
        df = {v: t for v, t in self.defs.items() if v != x and not contains(t, x)}
        return LS(eq, frozenset(rn(g) for g in self.ge), df)
    def rows(self):
        return [ladd((0, frozenset([(p, 1)])), e, -1) for p, e in self.eq.items()]
    def join(self, o, widen=False, templates=()):
        if self is o: return self
        df = {v: t for v, t in self.defs.items() if o.defs.get(v) == t}
        if self.eq == o.eq: eq = self.eq; n = LS(eq, frozenset(), df)
        else:
            n = LS({}, frozenset(), df)
            rows = [r for r in self.rows() if o.enteq(r)] + [r for r in o.rows() if self.enteq(r)]
            for t in templates:
                a = self.canon(t)
                if not a[1]:
                    b = o.canon(t)
                    if a == b: rows.append((t[0] - a[0], t[1]))
            for r in rows + intersect_rows(self.rows(), o.rows()):
                # accidental relations such as 2S = B + E + 1 are dropped: they only make inequalities illegible
                c = n.canon(r)
                if any(k not in (1, -1) for s, k in c[1]): continue
                m = n.assume_eq(r)
                if m is None or any(k not in (1, -1) for e in m.eq.values() for s, k in e[1]): continue
                n = m
        cand = []
        if widen == 2:
            # last resort: keep equalities and template inequalities only (a finite, shrinking set)
            m = n.addges([t for t in templates if self.ent(t) and o.ent(t)])
            return m if m is not None else n
        for g in self.ge:
            k = o.slack(g)
            if k is None: continue
            if k == 0: cand.append(g)
            elif not widen: cand.append((g[0] + k, g[1]))
            else:
                # widening: only relax to a small set of constants
                for c in (-1, 0, 1, 2):
                    if c >= g[0] + k: cand.append((c, g[1])); break
        for r in self.rows():
            for q in (r, lmul(r, -1)):
                if not n.enteq(q) and o.ent(q): cand.append(q)
        # a lost equality (i = 0 here, i = 1 there) may survive inside an inequality (rest - i >= 0)
        for a, b in ((self, o), (o, self)):
            if widen and a is o: continue
            lost = [r for r in a.rows() if not n.enteq(r)]
            if len(lost) * len(a.ge) > 400: continue
            for r in lost:
                for g in a.ge:
                    for q in (ladd(g, r), ladd(g, r, -1)):
                        if len(q[1]) > 6 or any(abs(c) > 2 for s, c in q[1]): continue
                        k = b.slack(q)
                        if k is not None and (k == 0 or not widen): cand.append((q[0] + k, q[1]))
        for t in templates:
            if self.ent(t) and o.ent(t): cand.append(t)
        if not widen:
            for g in o.ge:
                k = self.slack(g)
                if k is not None: cand.append((g[0] + k, g[1]))
            for r in o.rows():
                for q in (r, lmul(r, -1)):
                    if not n.enteq(q) and self.ent(q): cand.append(q)
        m = n.addges(cand)
        return m.reduce() if m is not None else n
    def leq(self, o):
        """self is at least as strong as o"""
        return all(self.enteq(r) for r in o.rows()) and all(self.ent(g) for g in o.ge) and all(self.defs.get(v) == t for v, t in o.defs.items())
    def __repr__(self):
        return '; '.join(['%s = %s' % (show(p) if isinstance(p, tuple) else p, lshow(e)) for p, e in self.eq.items()] + [lshow(g) + ' >= 0' for g in self.ge])

def tidy(l):
    """integers where possible, divide by gcd for inequalities"""
    def f(x): return int(x) if isinstance(x, Fraction) and x.denominator == 1 else x
    return (f(l[0]), frozenset((s, f(k)) for s, k in l[1]))

def integral(g):
    """multiply out fractions, divide by the gcd, round the constant (all quantities are integers)"""
    m = 1
    for s, k in g[1]:
        if isinstance(k, Fraction): m = m * k.denominator // math.gcd(m, k.denominator)
    ks = [int(k * m) for s, k in g[1]]
    d = 0
    for k in ks: d = math.gcd(d, abs(k))
    return (math.floor(Fraction(g[0]) * m / d), frozenset((s, k // d) for (s, _), k in zip(g[1], ks)))

def bound(t, ge):
    """min sum(l_k * c_k) over l >= 0 with sum(l_k * a_k) = t: the least k with t + k >= 0 (99 when there is none)"""
    # the inequalities connected to t
    syms = set(s for s, _ in t)
    cols = []; rest = list(ge); ch = True
    while ch and rest:
        ch = False; nr = []
        for g in rest:
            if any(s in syms for s, _ in g[1]):
                cols.append(g); n = len(syms); syms.update(s for s, _ in g[1])
                ch = True
            else: nr.append(g)
        rest = nr
    for s in syms:
        if is_size(s): cols.append((0, frozenset([(s, 1)])))
    if not cols: return 99
    rows = sorted(syms, key=str); ri = {s: k for k, s in enumerate(rows)}
    m = len(rows); n = len(cols)
    T = [[0] * (n + 1) for _ in range(m)]
    for j, g in enumerate(cols):
        for s, k in g[1]: T[ri[s]][j] = k
    for s, k in t: T[ri[s]][n] = k
    # phase 1 with implicit artificials: cost row 1 = -(sum of rows)
    for r in T:
        if r[n] < 0:
            for j in range(n + 1): r[j] = -r[j]
    z1 = [-sum(r[j] for r in T) for j in range(n + 1)]
    z2 = [g[0] for g in cols] + [0]
    basis = [-1] * m
    def pivot(r, c):
        pr = T[r]; p = pr[c]
        if p == -1: pr = T[r] = [-x for x in pr]
        elif p != 1: pr = T[r] = [Fraction(x) / p if x else 0 for x in pr]
        for q in T + [z1, z2]:
            if q is pr: continue
            f = q[c]
            if f:
                for j in range(n + 1):
                    if pr[j]: q[j] -= f * pr[j]
        basis[r] = c
    def step(z):
        """Bland's rule; True when optimal, None when unbounded"""
        for c in range(n):
            if z[c] < 0:
                best = None
                for r in range(m):
                    if T[r][c] > 0:
                        q = Fraction(T[r][n], 1) / T[r][c] if T[r][c] != 1 else T[r][n]
                        k = (q, basis[r])
                        if best is None or k < best[0]: best = (k, r)
                if best is None: return None
                pivot(best[1], c)
                return False
        return True
    for _ in range(500):
        r = step(z1)
        if r is None: return 99
        if r: break
    else: return 99
    if z1[n] != 0: return 99
    # artificials still in the basis (at zero): pivot them out where possible
    for r in range(m):
        if basis[r] == -1:
            for c in range(n):
                if T[r][c] != 0: pivot(r, c); break
    keep = [r for r in range(m) if basis[r] != -1]
    T[:] = [T[r] for r in keep]; basis[:] = [basis[r] for r in keep]; m = len(T)
    for _ in range(500):
        r = step(z2)
        if r is None: return -10**6          # contradictory inequalities: everything follows
        if r: break
    else: return 99
    v = -z2[n]
    return math.floor(v)

def pivot_rank(s):
    if s[0] == 'ghost': return 0 if s[1] in ('NUL',) else 3
    return {'t': 6, 'r': 5, 'v': 4, 'f': 3, 'c': 2, 'g': 2}.get(s[0], 1)

def is_size(s):
    return s[0] == 'c' and s[1].split('::')[-1] in ('size', 'length') or (s[0] == 'c' and s[1] == 'strlen') or s[0] == 'nn'

def intersect_rows(A, B):
    """basis of the intersection of two row spaces (Zassenhaus)"""
    rows = []
    ONE = ('ghost', '1')
    def vec(l, side):
        d = {}
        for s, k in l[1]: d[(side, s)] = Fraction(k)
        if l[0]: d[(side, ONE)] = Fraction(l[0])
        return d
    for a in A:
        d = vec(a, 0); d.update(vec(a, 1)); rows.append(d)
    for b in B: rows.append(vec(b, 0))
    red = []      # (pivot, row)
    out = []
    for r in rows:
        for p, q in red:
            c = r.get(p)
            if c:
                for s, k in q.items():
                    v = r.get(s, 0) - c * k
                    if v: r[s] = v
                    else: r.pop(s, None)
        if not r: continue
        left = [s for s in r if s[0] == 0]
        p = left[0] if left else next(iter(r))
        c = r[p]
        r = {s: k / c for s, k in r.items()}
        for i, (pp, q) in enumerate(red):
            c = q.get(p)
            if c:
                for s, k in r.items():
                    v = q.get(s, 0) - c * k
                    if v: q[s] = v
                    else: q.pop(s, None)
        red.append((p, r))
    for p, r in red:
        if p[0] == 1 and not any(s[0] == 0 for s in r):
            c = r.get((1, ONE), Fraction(0))
            d = {s[1]: k for s, k in r.items() if s[1] != ONE}
            out.append(tidy(mk(c, d)))
    return out

def choice(t):
    """the condition a value depends on"""
    if t[0] == '?': return t[1]
    if t[0] == 'b' and t[1] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||') or t[0] == '!': return t
    if t[0] == 'b' and t[1] in ('+', '-'): return choice(t[2]) or choice(t[3])
    return None
def settle(t, c, pol):
    if t == c: return ('i', int(pol))
    if t[0] == '?' and t[1] == c: return t[2] if pol else t[3]
    if t[0] == 'b' and t[1] in ('+', '-'): return ('b', t[1], settle(t[2], c, pol), settle(t[3], c, pol))
    return t

# ------------------------------------------------------------------ the flow
FOUND = ('strchr', 'strrchr', 'strstr', 'strpbrk', 'memchr')
STRPOS = FOUND + ('strlen', 'strspn', 'strcspn')
NUL = ('ghost', 'NUL')
class LinFlow:
    WIDEN = 4; WIDEN2 = 12
    def __init__(self, g, maxvisits=60000):
        self.g = g; self.maxvisits = maxvisits
        fl = Flow(g); fl.liveness()
        self.live = fl.live; self.lidx = fl.lidx; self.order = fl.orderlist
        self.states = {}
        self.recording = False
        self.tmpl = {}
        self.templates = []
    def collect_templates(self):
        """goal expressions worth keeping at merge points: distances of read positions to the end, non-negative counters"""
        out = []
        e = LS()
        def add(l):
            if l is not None and l[1] and l not in out: out.append(l)
        for i in self.g.instrs:
            if i.op == 'acc' and self.is_char(i.a):
                p = self.pos(i.a, e)
                if p is not None: add(ladd(L(0, (NUL, 1)), p, -1))
                if i.a[0] == 'x': add(self.lin(i.a[2], e))
        for l in self.extra_templates(): add(l)
        self.templates = out
    def extra_templates(self): return []
    def templates_at(self, i):
        r = self.tmpl.get(i.id)
        if r is None:
            lv = self.live.get(i.id, 0); r = []
            for t in self.templates:
                ok = True
                for s, k in t[1]:
                    if self.keep(s): continue
                    for x in allterms(s):
                        if x[0] in ('v', 'r', 't'):
                            b = self.lidx.get(x)
                            if b is None or not (lv >> b) & 1: ok = False
                if ok: r.append(t)
            self.tmpl[i.id] = r
        return r
    def entry(self): return {(): LS()}
    def event(self, i, ts, st):
        """rule-specific transfer before the generic one; yields (ts, st)"""
        yield ts, st
    def keep(self, s): return s[0] == 'ghost'
    # ---- terms
    def lin(self, t, st):
        k = t[0]
        if k == 'i': return L(t[1])
        if k == 'b' and t[1] in '+-' and len(t[1]) == 1:
            a, b = self.lin(t[2], st), self.lin(t[3], st)
            if a is None or b is None: return None
            return ladd(a, b, 1 if t[1] == '+' else -1)
        if k == 'b' and t[1] == '*':
            a, b = self.lin(t[2], st), self.lin(t[3], st)
            if a is not None and not a[1] and b is not None: return lmul(b, a[0])
            if b is not None and not b[1] and a is not None: return lmul(a, b[0])
            return None
        if k == 'addr' and t[1][0] == 'x':
            a, b = self.lin(t[1][1], st), self.lin(t[1][2], st)
            return ladd(a, b) if a is not None and b is not None else None
        if k in ('v', 'r', 'f', 'g', 't', 'ghost'): return L(0, (t, 1))
        if k == 'c' and t[1].split('::')[-1] in ('size', 'length'): return L(0, (('c', 'size', t[2]), 1))
        if k == 'c' and t[1] == 'strlen':
            p = self.lin(t[3], st)
            if p is not None and any(s[0] in 'vrf' for s, _ in p[1]) and st.ent(ladd(L(0, (NUL, 1)), p, -1)): return ladd(L(0, (NUL, 1)), p, -1)
        if k == 'c' and t[1] in STRPOS: return L(0, (t, 1))
        return None
    def pos(self, t, st):
        """position read by a dereference or index term"""
        if t[0] == 'd': return self.lin(t[1], st)
        if t[0] == 'x':
            a, b = self.lin(t[1], st), self.lin(t[2], st)
            return ladd(a, b) if a is not None and b is not None else None
        return None
    def is_char(self, t): return t[0] in ('d', 'x')
    # ---- assumptions
    def assume(self, t, pol, st, depth=0):
        if st is None or depth > 12: return st
        k = t[0]
        if k == 'i': return st if bool(t[1]) == pol else None
        if k == '!': return self.assume(t[1], not pol, st, depth + 1)
        if k == 'notin':
            for v in t[2]: st = self.assume(('b', '==', t[1], ('i', v)), False, st, depth + 1)
            return st
        if k == 'b':
            op, a, b = t[1], t[2], t[3]
            if op in ('&&', '||'):
                if (op == '&&') == pol:
                    return self.assume(b, pol, self.assume(a, pol, st, depth + 1), depth + 1)
                x = self.assume(a, pol, st, depth + 1); y = self.assume(b, pol, st, depth + 1)
                if x is None: return y
                if y is None: return x
                return x.join(y)
            if op in NEG:
                if not pol: op = NEG[op]
                return self.compare(op, a, b, st, depth)
        if k == '?':
            return st
        return self.compare('!=' if pol else '==', t, ('i', 0), st, depth)
    def compare(self, op, a, b, st, depth):
        if a[0] == 'i' and b[0] != 'i': a, b, op = b, a, SWAP[op]
        st2 = st
        if a[0] == 'c' and a[1] in ('strncmp', 'strcmp', 'memcmp') and len(a) > 4 and op == '==' and b == ('i', 0):
            # equal to a literal: that many characters are there
            for x, y in ((a[3], a[4]), (a[4], a[3])):
                p = self.lin(x, st)
                if y[0] != 's' or p is None: continue
                n = len(y[1])
                if a[1] != 'strcmp':
                    if a[5][0] != 'i': continue
                    n = min(n, a[5][1])
                rem = ladd(L(0, (NUL, 1)), p, -1)
                if st.ent(rem): st = st.assume_ge(ladd(rem, L(-n)))
            return st
        if b[0] == 'i':
            st2 = self.charfact(op, a, b[1], st2, depth)
            if st2 is None: return None
            d = a if a[0] == 'c' and a[1] in FOUND else st2.defs.get(a)
            if d is not None:
                if b[1] == 0 and op == '!=' and d[0] == 'c' and d[1] in FOUND and d[3] is not None:
                    # a found position lies inside the searched string
                    p, q = self.lin(d[3], st2), self.lin(a, st2)
                    if p is not None and q is not None and st2.ent(ladd(L(0, (NUL, 1)), p, -1)):
                        z = d[1] in ('strchr', 'strrchr') and (d[4][0] != 'i' or d[4][1] == 0)
                        n = len(d[4][1]) if d[1] == 'strstr' and d[4][0] == 's' else (0 if z else 1)
                        st2 = st2.assume_ge(ladd(q, p, -1))
                        if st2 is not None: st2 = st2.assume_ge(ladd(ladd(L(-n), q, -1), L(0, (NUL, 1))))
                        if st2 is None: return None
                elif d is not a and b[1] == 0 and op in ('==', '!=') and d[0] in ('b', '!', 'c'):
                    st2 = self.assume(d, op == '!=', st2, depth + 1)
                elif self.is_char(d): st2 = self.charfact(op, d, b[1], st2, depth)
                if st2 is None: return None
        la, lb = self.lin(a, st2), self.lin(b, st2)
        if la is None or lb is None: return st2
        d = ladd(la, lb, -1)
        if op == '==': return st2.assume_eq(d)
        if op == '<': return st2.assume_ge(ladd(lmul(d, -1), L(-1)))
        if op == '<=': return st2.assume_ge(lmul(d, -1))
        if op == '>': return st2.assume_ge(ladd(d, L(-1)))
        if op == '>=': return st2.assume_ge(d)
        if op == '!=':
            c = st2.canon(d)
            if not c[1]: return st2 if c[0] != 0 else None
            if st2.ent(d): return st2.assume_ge(ladd(d, L(-1)))
            if st2.ent(lmul(d, -1)): return st2.assume_ge(ladd(lmul(d, -1), L(-1)))
        return st2
    def charfact(self, op, a, c, st, depth):
        """facts about characters of NUL-terminated input"""
        if a[0] == 'c' and a[1] in ('strchr', 'memchr') and c == 0:
            # strchr(set, ch) == 0: ch is not in the set, hence not NUL
            if op == '==' and a[1] == 'strchr': return self.nonzero(a[4], st, depth)
            return st
        if not self.is_char(a): return st
        p = self.pos(a, st)
        if p is None: return st
        nz = (op == '==' and c != 0) or (op == '!=' and c == 0) or (op == '>' and c >= 0) or (op == '>=' and c > 0) \
            or (op == '<' and c <= 0) or (op == '<=' and c < 0)
        z = (op == '==' and c == 0)
        rem = ladd(L(0, (NUL, 1)), p, -1)
        if nz and st.ent(rem): return st.assume_ge(ladd(rem, L(-1)))
        if z and st.ent(rem): return st.assume_eq(rem)
        return st
    def nonzero(self, t, st, depth):
        d = st.defs.get(t)
        if d is not None and self.is_char(d): t = d
        return self.charfact('!=', t, 0, st, depth + 1)
    # ---- transfer
    def assign(self, l, r, st):
        x = self.lin(r, st) if r is not None and r[0] != '?' else None
        n = st
        # container contents replaced
        n = n.forget_in(l) if l[0] != 'v' and l[0] != 'r' and (x is None or not any(s == l for s, _ in x[1])) else n
        for s in list(n.syms()):
            if s != l and isinstance(s, tuple) and s[0] != 'ghost' and contains(s, l): n = n.forget(s)
        n = n.assign(l, x)
        if n is None: return None
        if r is not None and (self.is_char(r) or r[0] in ('b', '!', 'c')) and not contains(r, l):
            d = dict(n.defs); d[l] = r
            n = LS(n.eq, n.ge, d)
        return n
    def base(self, i, st):
        op = i.op
        if op == 'assume': return self.assume(i.a[0], i.a[1], st)
        if op in ('assign', 'decl', 'init', 'ret'):
            l, r = i.a
            if l is None: return st
            nd = i.node or {}
            if op == 'assign' and nd.get('k') == 'un' and nd['op'] in ('p++', 'p--'):
                st = st.assign(('t', i.ctx.id, i.n), self.lin(l, st))
            x = self.lin(r, st) if r is not None else None
            if r is not None and r[0] == '?':
                x = None
            if l[0] in ('v', 'r', 'f', 'g'):
                return self.assign(l, r, st)
            if l[0] in ('d', 'x'):
                return st.forget_in(l)
            return st
        if op == 'call':
            return self.call(i, st)
        return st
    def steps(self, i, ts, st):
        """transfer of one instruction; a value that depends on a condition (c ? a : b, comparisons) is taken apart"""
        if i.op in ('assign', 'decl', 'init', 'ret') and i.a[1] is not None and i.a[0] is not None and i.a[0][0] in 'vrfg':
            c = choice(i.a[1])
            if c is not None:
                for pol in (True, False):
                    for ts2, st2 in self.on_assume(i, c, pol, ts, st):
                        if st2 is not None: st2 = self.assume(c, pol, st2)
                        if st2 is None: continue
                        r = settle(i.a[1], c, pol)
                        if choice(r) is not None: r = None
                        st3 = self.assign(i.a[0], r, st2)
                        if st3 is not None and r is not None and r[0] == 'i' and i.a[1] == c and not contains(c, i.a[0]):
                            d = dict(st3.defs); d[i.a[0]] = c
                            st3 = LS(st3.eq, st3.ge, d)
                        yield ts2, st2, st3
                return
        for ts2, st2 in self.event(i, ts, st):
            if st2 is not None: yield ts2, st2, self.base(i, st2)
    def on_assume(self, i, t, pol, ts, st):
        yield ts, st
    def call(self, i, st):
        fn, ob, args, res = i.a
        nd = i.node
        inl = i.n is not None and i.ctx.calls.get(i.n) is not None
        st = st.forget(res)
        if inl: return st
        sh = fn.split('::')[-1]
        pts = nd.get('pt', [])
        for k, a in enumerate(args):
            pt = pts[k] if k < len(pts) else ''
            if a[0] == 'addr' and not pt.startswith('const '): st = st.forget_in(a[1])
            elif pt.endswith('&') and not pt.startswith('const ') and a[0] in ('v', 'f', 'x', 'd') and not (nd.get('cc') or pt.endswith('&&')):
                st = st.forget_in(a)
        if ob is not None and nd.get('k') == 'call' and not nd.get('const') and nd.get('op') not in ('[]', '->', '*', '==', '!=', '<') \
           and sh not in GETTERS and sh not in ('at', 'find', 'front', 'back'):
            sz = ('c', 'size', ob)
            if sh in ('push_back', 'push_front'):
                st = st.assign(sz, L(1, (sz, 1)))
            elif sh in ('clear',): st = st.assign(sz, L(0))
            else: st = st.forget_in(ob) if ob[0] not in ('this',) else st
        if fn in ('strspn', 'strcspn') and args:
            p = self.lin(args[0], st)
            t = ('c', fn, None) + tuple(args)
            st = st.assume_ge(L(0, (t, 1)))
            if p is not None and st.ent(ladd(L(0, (NUL, 1)), p, -1)):
                st = st.assume_ge(ladd(ladd(L(0, (NUL, 1)), p, -1), L(0, (t, 1)), -1))
        if fn == 'strlen' and args:
            p = self.lin(args[0], st)
            if p is not None and st.ent(ladd(L(0, (NUL, 1)), p, -1)):
                st = st.assume_eq(ladd(ladd(L(0, (NUL, 1)), p, -1), L(0, (('c', 'strlen', None, args[0]), 1)), -1))
        return st
    def prune(self, i, st):
        lv = self.live.get(i.id, 0)
        for s in list(st.syms()):
            if self.keep(s): continue
            dead = False
            for x in allterms(s):
                if x[0] in ('v', 'r', 't'):
                    b = self.lidx.get(x)
                    if b is None or not (lv >> b) & 1: dead = True; break
            if dead: st = st.forget(s)
        df = {}
        for v, t in st.defs.items():
            ok = True
            for x in allterms(v) + allterms(t):
                if x[0] in ('v', 'r', 't'):
                    b = self.lidx.get(x)
                    if x is v or b is None or not (lv >> b) & 1:
                        if x == v and b is not None and (lv >> b) & 1: continue
                        ok = False; break
            if ok: df[v] = t
        if len(df) != len(st.defs): st = LS(st.eq, st.ge, df)
        return st
    def run(self):
        g = self.g
        self.collect_templates()
        rank = {i.id: k for k, i in enumerate(self.order)}
        self.states = {g.entry.id: dict(self.entry())}
        work = [(rank[g.entry.id], g.entry.id)]; inq = {g.entry.id}
        cnt = {}; visits = 0
        while work:
            _, iid = heapq.heappop(work); inq.discard(iid)
            i = g.instrs[iid]; visits += 1
            if visits > self.maxvisits: raise AnalysisError('linear analysis of %s does not converge' % g.root.name)
            outs = {}
            for ts, st in self.states[iid].items():
                for ts2, st2, st3 in self.steps(i, ts, st):
                    if st3 is None: continue
                    if i.op in ('leave', 'assume', 'ret', 'assign', 'decl', 'call'): st3 = self.prune(i, st3)
                    o = outs.get(ts2)
                    outs[ts2] = st3 if o is None else o.join(st3, templates=self.templates_at(i))
            for s in i.succ:
                cur = self.states.get(s.id)
                if cur is None: cur = self.states[s.id] = {}
                ch = False
                for ts, st in outs.items():
                    o = cur.get(ts)
                    if o is None: cur[ts] = st; ch = True
                    elif len(s.pred) == 1:
                        if o.key() != st.key(): cur[ts] = st; ch = True
                    else:
                        if st.key() == o.key() or st.leq(o): continue
                        c = cnt[(s.id, ts)] = cnt.get((s.id, ts), 0) + 1
                        n = o.join(st, widen=2 if c > self.WIDEN2 else int(c > self.WIDEN), templates=self.templates_at(s))
                        if n.key() != o.key(): cur[ts] = n; ch = True
                if ch and s.id not in inq and s.id in rank:
                    inq.add(s.id); heapq.heappush(work, (rank[s.id], s.id))
        self.visits = visits
        return self
    def at(self, i): return list(self.states.get(i.id, {}).items())
