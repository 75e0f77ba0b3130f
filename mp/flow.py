"""Forward dataflow (property simulation): per program point a map
   (typestate, flag constants) -> facts that hold on every path with that typestate."""
from collections import deque
from .prog import *

I0 = ('i', 0)
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}

def atoms_of(t, pol, out, defs, depth=0):
    """facts implied by `t` being pol (true/false)"""
    if depth > 12: return
    k = t[0]
    if k == '!':
        return atoms_of(t[1], not pol, out, defs, depth + 1)
    if k == 'notin':
        for v in t[2]: out.append(('ne', t[1], v))
        return
    if k == 'b':
        op, a, b = t[1], t[2], t[3]
        if op == '&&':
            if pol:
                atoms_of(a, True, out, defs, depth + 1); atoms_of(b, True, out, defs, depth + 1)
            return
        if op == '||':
            if not pol:
                atoms_of(a, False, out, defs, depth + 1); atoms_of(b, False, out, defs, depth + 1)
            return
        if op in NEG:
            if not pol: op = NEG[op]
            if a[0] == 'i' and b[0] != 'i':
                a, b = b, a; op = SWAP[op]
            if b[0] == 'i':
                c = b[1]
                if op == '==':
                    out.append(('eq', a, c))
                    if a in defs and c in (0, 1): atoms_of(defs[a], bool(c), out, defs, depth + 1)
                elif op == '!=':
                    out.append(('ne', a, c))
                    if c == 0 and a in defs: atoms_of(defs[a], True, out, defs, depth + 1)
                    if a[0] == 'b' and c == 0: atoms_of(a, True, out, defs, depth + 1)
                elif op == '<': out.append(('le', a, ('i', c - 1)))
                elif op == '<=': out.append(('le', a, ('i', c)))
                elif op == '>': out.append(('le', ('i', c + 1), a))
                elif op == '>=': out.append(('le', ('i', c), a))
            else:
                if op == '==': out.append(('same', a, b)); out.append(('same', b, a))
                elif op == '!=': out.append(('diff', a, b)); out.append(('diff', b, a))
                elif op == '<': out.append(('lt', a, b))
                elif op == '<=': out.append(('le', a, b))
                elif op == '>': out.append(('lt', b, a))
                elif op == '>=': out.append(('le', b, a))
            return
    if k == 'i': return
    out.append(('ne', t, 0) if pol else ('eq', t, 0))
    if t in defs: atoms_of(defs[t], pol, out, defs, depth + 1)

_vt = {}
def varterms(t):
    r = _vt.get(t)
    if r is None:
        r = _vt[t] = tuple(s for s in subterms(t) if s[0] in ('v', 'r', 't', 'f') and s != t) + ((t,) if t[0] in ('v', 'r', 't') else ())
    return r

class Facts(object):
    """immutable fact set"""
    __slots__ = ('s', '_defs', '_h', '_al', '_eq', '_rd')
    def __init__(self, s=frozenset()):
        self.s = s; self._defs = None; self._h = None; self._al = {}; self._eq = None; self._rd = None
    def __hash__(self):
        if self._h is None: self._h = hash(self.s)
        return self._h
    def __eq__(self, o): return self.s == o.s
    def __contains__(self, a): return a in self.s
    def defs(self):
        if self._defs is None:
            self._defs = {a[1]: a[2] for a in self.s if a[0] == 'def'}
        return self._defs
    def kill(self, t):
        if not any(self._hit(a, t) for a in self.s): return self
        return Facts(frozenset(a for a in self.s if not self._hit(a, t)))
    @staticmethod
    def _hit(a, t):
        for x in a[1:]:
            if isinstance(x, tuple) and contains(x, t): return True
        return False
    def killif(self, pred):
        n = frozenset(a for a in self.s if not any(isinstance(x, tuple) and pred(x) for x in a[1:]))
        return self if len(n) == len(self.s) else Facts(n)
    def add(self, atoms):
        atoms = [a for a in atoms if a not in self.s]
        if not atoms: return self
        return Facts(self.s | frozenset(atoms))
    def meet(self, o):
        n = self.s & o.s
        if len(n) == len(self.s): return self
        return Facts(n)
    # -- queries
    def alias(self, t):
        """t and everything it is known to equal"""
        r = self._al.get(t)
        if r is not None: return r
        out = [t]; d = self.defs()
        if not d:
            self._al[t] = out
            return out
        if self._rd is None:
            self._rd = {}
            for v, x in d.items(): self._rd.setdefault(x, []).append(v)
        rd = self._rd
        seen = set(out)
        i = 0
        while i < len(out) and len(out) < 16:
            x = out[i]; i += 1
            for v in varterms(x):
                y0 = d.get(v)
                if y0 is not None and is_path(y0):
                    y = subst(x, v, y0)
                    if y not in seen: seen.add(y); out.append(y)
            y0 = d.get(x)
            if y0 is not None and y0 not in seen and is_path(y0): seen.add(y0); out.append(y0)
            for v in rd.get(x, ()):
                if v not in seen: seen.add(v); out.append(v)
        self._al[t] = out
        return out
    def eqs(self):
        if self._eq is None:
            self._eq = {a[1]: a[2] for a in self.s if a[0] == 'eq'}
        return self._eq
    def value(self, t):
        if t[0] == 'i': return t[1]
        if t[0] == '!':
            r = self.evalcond(t[1])
            return None if r is None else int(not r)
        e = self.eqs()
        for a in self.alias(t):
            if a[0] == 'i': return a[1]
            v = e.get(a)
            if v is not None: return v
        return None
    def nonnull(self, t):
        e = self.eqs()
        for x in self.alias(t):
            if x[0] in ('addr', 's', 'this'): return True
            if ('ne', x, 0) in self.s: return True
            v = e.get(x)
            if v is not None and v != 0: return True
        return False
    def isnull(self, t):
        for x in self.alias(t):
            if x == I0 or ('eq', x, 0) in self.s: return True
        return False
    def ne(self, t, c):
        for x in self.alias(t):
            if ('ne', x, c) in self.s: return True
        v = self.value(t)
        return v is not None and v != c
    def lower(self, t):
        """greatest known constant lower bound of t"""
        b = None
        for x in self.alias(t):
            if x[0] == 'i': return x[1]
            for a in self.s:
                if a[0] == 'le' and a[2] == x and a[1][0] == 'i': b = a[1][1] if b is None else max(b, a[1][1])
                if a[0] == 'eq' and a[1] == x: b = a[2] if b is None else max(b, a[2])
                if a[0] == 'lt' and a[2] == x:
                    pass
        return b
    def upper(self, t):
        b = None
        for x in self.alias(t):
            if x[0] == 'i': return x[1]
            for a in self.s:
                if a[0] == 'le' and a[1] == x and a[2][0] == 'i': b = a[2][1] if b is None else min(b, a[2][1])
                if a[0] == 'eq' and a[1] == x: b = a[2] if b is None else min(b, a[2])
        return b
    def evalcond(self, t, depth=0):
        """True / False / None"""
        if depth > 12: return None
        k = t[0]
        if k == 'i': return bool(t[1])
        if k == 's': return True
        if k == 'addr': return True
        if k == '!':
            r = self.evalcond(t[1], depth + 1)
            return None if r is None else not r
        if k == 'notin':
            v = self.value(t[1])
            if v is not None: return v not in t[2]
            return None
        if k == 'b':
            op, a, b = t[1], t[2], t[3]
            if op == '&&':
                x, y = self.evalcond(a, depth + 1), self.evalcond(b, depth + 1)
                if x is False or y is False: return False
                if x and y: return True
                return None
            if op == '||':
                x, y = self.evalcond(a, depth + 1), self.evalcond(b, depth + 1)
                if x or y: return True
                if x is False and y is False: return False
                return None
            if op in NEG:
                va, vb = self.value(a), self.value(b)
                if va is not None and vb is not None:
                    return {'==': va == vb, '!=': va != vb, '<': va < vb, '>': va > vb, '<=': va <= vb, '>=': va >= vb}[op]
                if op in ('==', '!='):
                    if vb is not None and self.ne(a, vb): return op == '!='
                    if va is not None and self.ne(b, va): return op == '!='
                    if vb == 0 and self.nonnull(a): return op == '!='
                    if vb == 0 and a[0] == 'b':
                        r = self.evalcond(a, depth + 1)
                        if r is not None: return r if op == '!=' else not r
                    if ('same', a, b) in self.s: return op == '=='
                    if ('diff', a, b) in self.s: return op == '!='
                    if vb is not None:
                        lo, hi = self.lower(a), self.upper(a)
                        if (lo is not None and lo > vb) or (hi is not None and hi < vb): return op == '!='
                else:
                    if vb is not None:
                        lo, hi = self.lower(a), self.upper(a)
                        if op == '<' and hi is not None and hi < vb: return True
                        if op == '<' and lo is not None and lo >= vb: return False
                        if op == '>' and lo is not None and lo > vb: return True
                        if op == '>' and hi is not None and hi <= vb: return False
                        if op == '<=' and hi is not None and hi <= vb: return True
                        if op == '<=' and lo is not None and lo > vb: return False
                        if op == '>=' and lo is not None and lo >= vb: return True
                        if op == '>=' and hi is not None and hi < vb: return False
                return None
            return None
        v = self.value(t)
        if v is not None: return bool(v)
        if self.nonnull(t): return True
        if self.isnull(t): return False
        d = self.defs().get(t)
        if d is not None and d != t: return self.evalcond(d, depth + 1)
        return None

class Flow:
    MAXK = 24
    def __init__(self, g, maxvisits=400000):
        self.g = g
        self.states = {}
        self.maxvisits = maxvisits
        self.flagvars = self.find_flags()
        self.widened = set()
        self.par = {}
    # ---- to override
    def start(self): return ()
    def entry_facts(self): return []
    def step(self, i, ts, facts):
        """typestate transfer: yields (ts, facts)"""
        yield ts, facts
    def extra_flags(self): return ()
    # ---- flags
    def find_flags(self):
        tested = set(); const = set()
        for i in self.g.instrs:
            if i.op == 'assume':
                for s in allterms(i.a[0]):
                    if s[0] in ('v', 'r'): tested.add(s)
            elif i.op in ('assign', 'decl', 'ret') and i.a[1] is not None:
                r = i.a[1]
                if r[0] == 'i' and i.a[0][0] in ('v', 'r'): const.add(i.a[0])
        # copies: r -> v
        ch = True
        while ch:
            ch = False
            for i in self.g.instrs:
                if i.op in ('assign', 'decl', 'ret') and i.a[1] is not None:
                    if i.a[1] in const and i.a[0][0] in ('v', 'r') and i.a[0] not in const:
                        const.add(i.a[0]); ch = True
                    if i.a[0] in tested and i.a[1][0] in ('v', 'r') and i.a[1] not in tested:
                        tested.add(i.a[1]); ch = True
        return const & tested
    def key(self, ts, facts):
        fl = frozenset(a for a in facts.s if a[0] == 'eq' and a[1] in self.flagvars)
        return (ts, fl)
    # ---- base transfer
    def base(self, i, facts):
        op = i.op
        if op == 'assume':
            t, pol = i.a
            r = facts.evalcond(t)
            if r is not None and r != pol: return None
            out = []
            atoms_of(t, pol, out, facts.defs())
            # propagate through aliases of boolean calls held in a variable
            f = facts.add(out)
            if self.contradict(f, out): return None
            return f
        if op in ('assign', 'decl', 'init', 'ret'):
            l, r = i.a
            if l is None: return facts
            nf = facts
            # value before the kill (for copies of flags)
            gen = []
            if r is not None:
                v = facts.value(r)
                if v is not None and r[0] != 'i': gen.append(('eq', l, v))
                if facts.nonnull(r): gen.append(('ne', l, 0))
                # what is known about members reached through r also holds through l
                if r[0] in ('v', 'd', 'f', 'x', 'r') and l[0] in ('v', 'r', 'f'):
                    for a in facts.s:
                        if a[0] in ('eq', 'ne') and a[1] != r and a[1][0] == 'f' and contains(a[1], r):
                            y = subst(a[1], r, l)
                            if y[0] == 'f': gen.append((a[0], y, a[2]))
            if l[0] == 'f' or l[0] == 'd' or l[0] == 'x' or l[0] in ('v', 'r', 'c', 'g'):
                nf = nf.kill(l)
                if l[0] in ('f', 'x', 'd'):
                    # writes through one alias invalidate the others
                    for al in facts.alias(l):
                        if al != l: nf = nf.kill(al)
            if r is not None:
                if r[0] == 'i':
                    nf = nf.add([('eq', l, r[1])])
                else:
                    if not contains(r, l): nf = nf.add([('def', l, r)])
                    nf = nf.add(gen)
                    if r[0] in ('addr', 's'): nf = nf.add([('ne', l, 0)])
                    if r[0] == 't' and r[2] >= 0:
                        nd = self.g.ctxs[r[1]].fn.nodes[r[2]]
                        if nd.get('k') == 'new': nf = nf.add([('ne', l, 0)])
            elif op == 'decl' and r is None:
                pass
            return nf
        if op == 'call':
            return self.call_effect(i, facts)
        if op == 'dtor':
            return facts
        return facts
    def contradict(self, f, new):
        for a in new:
            if a[0] == 'eq':
                if ('ne', a[1], a[2]) in f.s: return True
                for b in f.s:
                    if b[0] == 'eq' and b[1] == a[1] and b[2] != a[2]: return True
            elif a[0] == 'ne' and ('eq', a[1], a[2]) in f.s: return True
            elif a[0] == 'same' and ('diff', a[1], a[2]) in f.s: return True
            elif a[0] == 'diff' and ('same', a[1], a[2]) in f.s: return True
        return False
    def call_effect(self, i, facts):
        fn, ob, args, res = i.a
        nd = i.node
        facts = facts.kill(res)
        if i.n is not None and i.ctx.calls.get(i.n) is not None:
            return facts       # inlined: effects come from the body
        pts = nd.get('pt', [])
        for k, a in enumerate(args):
            pt = pts[k] if k < len(pts) else ''
            if a[0] == 'addr' and not pt.startswith('const '):
                facts = facts.kill(a[1])
            elif pt.endswith('&') and not pt.startswith('const ') and a[0] in ('v', 'f', 'x', 'd') and not (nd.get('cc') or pt.endswith('&&')):
                facts = facts.kill(a)
        if ob is not None and not nd.get('const') and nd.get('k') == 'call':
            sh = fn.split('::')[-1]
            if sh in ('move', ) and 'Package' in fn:
                facts = facts.killif(lambda x: any(s[0] == 'c' and s[1].endswith(('::response', 'is_closed')) for s in subterms(x)))
            elif sh not in GETTERS and not nd.get('op') in ('->', '*', '[]', '==', '!='):
                o = ob
                facts = facts.killif(lambda x: any(s[0] == 'c' and s[2] == o for s in subterms(x)))
        return facts
    # ---- solve
    def order(self):
        g = self.g
        seen = {g.entry.id}; out = []
        st = [(g.entry, iter(g.entry.succ))]
        while st:
            i, it = st[-1]
            for x in it:
                if x.id not in seen:
                    seen.add(x.id); st.append((x, iter(x.succ)))
                    break
            else:
                out.append(i); st.pop()
        out.reverse()
        return out
    def liveness(self):
        """variables (v, r, t terms) that may still be used after each instruction"""
        g = self.g
        order = self.order()
        idx = {}
        def bit(v):
            b = idx.get(v)
            if b is None: b = idx[v] = len(idx)
            return 1 << b
        use = {}; deff = {}
        for i in order:
            u = 0; d = 0
            terms = []
            a = i.a
            if i.op == 'assume': terms = [a[0]]
            elif i.op in ('assign', 'decl', 'init', 'ret'):
                if a[0] is not None and a[0][0] in ('v', 'r'): d = bit(a[0])
                elif a[0] is not None: terms.append(a[0])
                if a[1] is not None: terms.append(a[1])
            elif i.op == 'call':
                terms = list(a[2]) + ([a[1]] if a[1] is not None else [])
            elif i.op in ('acc', 'use', 'delete', 'dtor'): terms = [a] if a else []
            for t in terms:
                if not isinstance(t, tuple): continue
                for s in allterms(t):
                    if s[0] in ('v', 'r', 't'): u |= bit(s)
            use[i.id] = u; deff[i.id] = d & ~u
        live = {i.id: 0 for i in order}
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                o = 0
                for s in i.succ: o |= use.get(s.id, 0) | (live.get(s.id, 0) & ~deff.get(s.id, 0))
                if o != live[i.id]: live[i.id] = o; ch = True
        self.live = live; self.lidx = idx; self.orderlist = order
        self.lmask = {}
    def prune(self, i, f):
        lv = self.live.get(i.id, 0)
        idx = self.lidx; keep = []
        drop = False
        # a definition keeps what it mentions alive
        for a in f.s:
            ok = True
            for x in a[1:]:
                if isinstance(x, tuple):
                    m = self.lmask.get(x)
                    if m is None:
                        m = 0
                        for s in allterms(x):
                            if s[0] in ('v', 'r', 't'):
                                b = idx.get(s)
                                if b is None: m = -1; break
                                m |= 1 << b
                        self.lmask[x] = m
                    if m == -1 or (m & lv) != m: ok = False; break
            if ok or a in self.keepset(): keep.append(a)
            else: drop = True
        if not drop: return f
        # keep dead intermediate definitions that live facts refer to is not needed
        return Facts(frozenset(keep))
    def keepset(self): return ()
    def run(self):
        import heapq
        g = self.g
        self.liveness()
        rank = {i.id: k for k, i in enumerate(self.orderlist)}
        f0 = Facts(frozenset(self.entry_facts()))
        init = {self.key(self.start(), f0): f0}
        self.states = {g.entry.id: init}
        work = [(rank[g.entry.id], g.entry.id)]; inq = {g.entry.id}
        visits = 0
        while work:
            _, iid = heapq.heappop(work); inq.discard(iid)
            i = g.instrs[iid]
            visits += 1
            if visits > self.maxvisits:
                raise AnalysisError('flow analysis of %s does not converge' % g.root.name)
            outs = self.transfer(i)
            if i.op in ('enter', 'leave', 'assume', 'ret', 'assign', 'decl'):
                outs = [(ts, self.prune(i, f), k0) for ts, f, k0 in outs]
            for s in i.succ:
                st = self.states.get(s.id)
                ch = False
                if st is None:
                    st = self.states[s.id] = {}
                for (ts, f, k0) in outs:
                    k = self.key(ts, f)
                    if s.id in self.widened: k = (ts, frozenset())
                    old = st.get(k)
                    if old is None:
                        st[k] = f; ch = True
                        self.par.setdefault((s.id, k), (i.id, k0))
                    else:
                        m = old.meet(f)
                        if m != old: st[k] = m; ch = True
                if len(st) > self.MAXK and s.id not in self.widened:
                    self.widened.add(s.id)
                    n = {}
                    for (ts, fl), f in st.items():
                        k = (ts, frozenset())
                        n[k] = f if k not in n else n[k].meet(f)
                    self.states[s.id] = n
                    ch = True
                if ch and s.id not in inq:
                    inq.add(s.id); heapq.heappush(work, (rank[s.id], s.id))
        self.visits = visits
        return self
    def transfer(self, i):
        res = []
        for k, f in self.states.get(i.id, {}).items():
            for ts2, f2 in self.step(i, k[0], f):
                f3 = self.base(i, f2)
                if f3 is not None: res.append((ts2, f3, k))
        return res
    def path(self, i, ts, limit=40):
        """one path (branch decisions) on which typestate ts reaches instruction i"""
        k = None
        for kk in self.states.get(i.id, {}):
            if kk[0] == ts: k = kk; break
        out = []; cur = (i.id, k); seen = set()
        while cur is not None and cur not in seen:
            seen.add(cur)
            x = self.g.instrs[cur[0]]
            if x.op == 'assume':
                out.append('%s: %s is %s' % (x.loc(), show(x.a[0])[:120], 'true' if x.a[1] else 'false'))
            elif x.op in ('ret', 'throw'): out.append('%s: %s' % (x.loc(), x.op))
            cur = self.par.get(cur)
            if cur is not None and cur[1] not in self.states.get(cur[0], {}):
                # widened meanwhile
                c2 = (cur[0], (cur[1][0], frozenset()))
                cur = c2
        out.reverse()
        return out[-limit:]
    def at(self, i):
        """[(ts, facts)] before instruction i"""
        return [(ts, f) for (ts, fl), f in self.states.get(i.id, {}).items()]

_at = {}
def allterms(t):
    r = _at.get(t)
    if r is None: r = _at[t] = tuple(subterms(t))
    return r
