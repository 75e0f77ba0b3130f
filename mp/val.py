"""Path-sensitive value numbering: at each point, for each feasible combination of branch outcomes, which
   entry value (or expression over entry values) each location holds. Loops are cut with phi values whose
   incoming values are recorded."""
from .flow import *
from .common import READS

STRCMP = {'strcmp', 'xmlStrcmp', 'yaz_matchstr', 'strcasecmp', 'xmlStrcasecmp', 'std::basic_string::compare'}
CMP = ('==', '!=', '<', '>', '<=', '>=')
CLEAN = {'operator basic_string_view'}

def is_string_t(t):
    t = strip_t(t)
    return t.startswith(('std::basic_string<', 'std::__cxx11::basic_string<', 'std::string'))

def callfn(t):
    return t[1].split('::')[-1] if t[0] == 'c' else ''

def strip_str(t):
    """the character string an expression denotes, whatever its representation"""
    while t[0] == 'c' and callfn(t) in ('c_str', 'data', 'str') and len(t) == 3: t = t[2]
    return t

def order(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)

def canon(t, pol=True):
    """(atom, polarity) or (True/False, None)"""
    a, p = canon0(t, pol)
    if p is not None and a[0] == 'empty':
        s = strip_str(a[1])
        if s[0] == 's': return (s[1] == '') == p, None
        if s != a[1]: a = ('empty', s)
    return a, p

def canon0(t, pol=True):
    while True:
        k = t[0]
        if k == '!': t = t[1]; pol = not pol; continue
        if k == 'i': return bool(t[1]) == pol, None
        if k in ('addr', 's', 'this', 'fn'): return pol, None
        if k == 'b':
            op, a, b = t[1], t[2], t[3]
            if op in CMP:
                if a[0] == 'i' and b[0] == 'i':
                    r = {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op]
                    return r == pol, None
                if a == b: return (op in ('==', '<=', '>=')) == pol, None
            if op == '!=': op = '=='; pol = not pol
            if op == '>': op = '<'; a, b = b, a
            elif op == '>=': op = '<'; pol = not pol
            elif op == '<=': op = '<'; a, b = b, a; pol = not pol
            if op == '==':
                if a[0] == 'i' and b[0] != 'i': a, b = b, a
                if b == ('i', 0):
                    if a[0] == 'c' and (a[1] in STRCMP or callfn(a) in ('strcmp', 'xmlStrcmp', 'strcasecmp', 'compare')):
                        args = [x for x in (a[2],) + a[3:] if x is not None]
                        if len(args) == 2 and callfn(a) in ('strcasecmp', 'xmlStrcasecmp', 'yaz_matchstr'): return ('ieq',) + order(strip_str(args[0]), strip_str(args[1])), pol
                        if len(args) == 2: return ('==',) + order(strip_str(args[0]), strip_str(args[1])), pol
                    if a[0] in ('addr', 's', 'this', 'fn', 'new'): return (not pol), None
                    if a[0] == '!' or (a[0] == 'b' and a[1] in CMP + ('&&', '||')):
                        t = a; pol = not pol; continue
                    if a[0] == 'c' and callfn(a) in ('length', 'size') and len(a) == 3:
                        return ('empty', a[2]), pol
                    if a[0] == 'c' and callfn(a) == 'strlen' and len(a) == 4: return ('empty', strip_str(a[3])), pol
                    return ('==', a, b), pol
                if b == ('i', 1) and a[0] == 'b' and a[1] in CMP: t = a; continue
                a, b = strip_str(a), strip_str(b)
                if a == b: return pol, None
                if b == ('s', ''): return ('empty', a), pol
                if a == ('s', ''): return ('empty', b), pol
                return ('==',) + order(a, b), pol
            if op == '<':
                # 0 < size()
                if a == ('i', 0) and b[0] == 'c' and callfn(b) in ('length', 'size') and len(b) == 3: return ('empty', b[2]), not pol
                if b == ('i', 1) and a[0] == 'c' and callfn(a) in ('length', 'size') and len(a) == 3: return ('empty', a[2]), pol
                return ('<', a, b), pol
            if op in ('&&', '||'): return (op, a, b), pol
            return ('==', t, I0), not pol
        if k == 'c' and callfn(t) == 'xmlStrEqual' and len(t) == 5:
            a, b = strip_str(t[3]), strip_str(t[4])
            if a == b: return pol, None
            return ('==',) + order(a, b), pol
        if k == 'c' and callfn(t) == 'empty' and len(t) == 3: return ('empty', t[2]), pol
        if k == 'c' and callfn(t) in ('length', 'size') and len(t) == 3: return ('empty', t[2]), not pol
        if k == 'c' and callfn(t) in ('strcmp', 'xmlStrcmp', 'strcasecmp', 'compare', 'strlen'):
            t = ('b', '!=', t, I0); continue
        if k == 'x' and t[2] == I0: pass
        if k == 'new': return pol, None
        return ('==', t, I0), not pol

class VS:
    """one state: location -> value, branch outcomes"""
    __slots__ = ('env', 'conds', '_h')
    def __init__(self, env, conds):
        self.env = env; self.conds = conds; self._h = None
    def key(self):
        if self._h is None: self._h = (frozenset(self.env.items()), self.conds)
        return self._h
    def loc(self, t):
        k = t[0]
        if k == 'f':
            b = t[1]
            if b[0] == 'd': b = b[1]; bv = self.val(b)
            else: bv = self.val(b) if b[0] in ('v', 'g', 'f', 'd', 'x', 't', 'r', 'c', '?') else self.loc(b)
            if bv[0] == 'addr': bv = bv[1]
            if bv[0] == 'd': bv = bv[1]
            return ('f', bv, t[2])
        if k == 'd':
            v = self.val(t[1])
            return v[1] if v[0] == 'addr' else ('d', v)
        if k == 'x':
            b = t[1]
            bv = self.val(b)
            return norm(('x', bv, self.val(t[2])))
        return t
    def val(self, t):
        k = t[0]
        if k in ('v', 'g', 't', 'r'): return self.env.get(t, t)
        if k in ('f', 'd', 'x'):
            L = self.loc(t)
            v = self.env.get(L)
            if v is not None: return v
            if k == 'f' and L[1][0] == 'd':
                v = self.env.get(('f', L[1][1], L[2]))
                if v is not None: return v
            # member of a value that was copied as a whole
            return L
        if k == 'addr': return norm(('addr', self.loc(t[1])))
        if k == 'c': return ('c', t[1], self.val(t[2]) if t[2] is not None else None) + tuple(self.val(x) for x in t[3:])
        if k == '!':
            r = self.truth(t[1])
            return ('!', self.val(t[1])) if r is None else ('i', int(not r))
        if k == '?':
            sel = self.env.get(t)
            if sel is not None: return self.val(t[sel[1]])
            r = self.truth(t[1])
            if r is True: return self.val(t[2])
            if r is False: return self.val(t[3])
            return ('?',) + tuple(self.val(x) for x in t[1:])
        if k == 'b':
            a, b = self.val(t[2]), self.val(t[3])
            op = t[1]
            if op in CMP or op in ('&&', '||'):
                r = self.truth_v(('b', op, a, b))
                if r is not None: return ('i', int(r))
            if a[0] == 'i' and b[0] == 'i':
                if op == '+': return ('i', a[1] + b[1])
                if op == '-': return ('i', a[1] - b[1])
                if op == '*': return ('i', a[1] * b[1])
            return ('b', op, a, b)
        if k == 'notin': return ('notin', self.val(t[1]), t[2])
        return t
    def truth(self, t): return self.truth_v(self.val(t))
    def truth_v(self, v):
        """True / False / None for a value under the branch outcomes seen"""
        if v[0] == 'notin':
            for c in v[2]:
                if self.holds(('==',) + order(v[1], ('i', c))) is True or self.holds(('==', v[1], ('i', c))) is True: return False
            return True if v[1][0] == 'i' and v[1][1] not in v[2] else None
        a, p = canon(v)
        if p is None: return a
        if a[0] == '&&':
            x, y = self.truth_v(a[1]), self.truth_v(a[2])
            r = False if (x is False or y is False) else (True if x and y else None)
        elif a[0] == '||':
            x, y = self.truth_v(a[1]), self.truth_v(a[2])
            r = True if (x or y) else (False if x is False and y is False else None)
        else: r = self.holds(a)
        return None if r is None else (r == p)
    def holds(self, a):
        if (a, True) in self.conds: return True
        if (a, False) in self.conds: return False
        if a[0] == '==':
            # x == c known for another constant
            x, c = a[1], a[2]
            for y, d in ((x, c), (c, x)):
                if d[0] in ('i', 's'):
                    for b, p in self.conds:
                        if p and b[0] == '==' and y in b[1:]:
                            o = b[2] if b[1] == y else b[1]
                            if o[0] == d[0] and o != d: return False
                            if o[0] in ('s', 'addr') and d == I0: return False
        return None
    def assume(self, v, pol):
        """[states] after learning that the value is pol"""
        r = self.truth_v(v)
        if r is not None: return [self] if r == pol else []
        if v[0] == 'notin':
            c = set()
            for x in v[2]: c.add((('==', v[1], ('i', x)), not pol) if v[1][0] != 'i' else None)
            return [VS(self.env, self.conds | frozenset(x for x in c if x))]
        a, p = canon(v)
        p = (p == pol)
        if a[0] in ('&&', '||'):
            both = (a[0] == '&&') == p
            if both:
                out = []
                for s in self.assume(a[1], p): out += s.assume(a[2], p)
                return out
            # split: first decides, or first does not and second does
            out = list(self.assume(a[1], p))
            for s in self.assume(a[1], not p): out += s.assume(a[2], p)
            return out
        return [VS(self.env, self.conds | {(a, p)})]
    def set(self, L, v):
        e = {}
        for k, x in self.env.items():
            if k == L or (k[0] in ('f', 'x', 'd') and prefixed(k, L)): continue
            e[k] = x
        if v is not None and v != L: e[L] = v
        return VS(e, self.conds)

def prefixed(k, L):
    while k[0] in ('f', 'x', 'd'):
        k = k[1]
        if k == L: return True
    return False

class ValFlow:
    CAP = 400
    PURE = ()
    def __init__(self, g):
        self.g = g; self.states = {}; self.phis = {}; self.visits = 0; self.collapsed = False; self.outside = {}
        self.loops()
    # ---- hooks
    def start(self): return ()
    def event(self, i, ts, st): yield ts
    def at_head(self, h, ts, back): return ts
    def cond(self, i, atoms, ts, st): return ts
    # ---- loops
    def loops(self):
        g = self.g
        color = {}; self.back = set(); self.heads = {}
        st = [(g.entry, iter(g.entry.succ))]; color[g.entry.id] = 1
        while st:
            n, it = st[-1]
            for s in it:
                c = color.get(s.id)
                if c is None:
                    color[s.id] = 1; st.append((s, iter(s.succ))); break
                if c == 1: self.back.add((n.id, s.id))
            else:
                color[n.id] = 2; st.pop()
        for u, h in self.back:
            b = self.heads.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in b: continue
                b.add(x)
                w += [p.id for p in g.instrs[x].pred]
        self.mods = {}
        for h, body in self.heads.items():
            m = []
            for x in sorted(body):
                for t in self.writes(g.instrs[x]):
                    if t not in m: m.append(t)
            self.mods[h] = sorted(m, key=lambda t: (sum(1 for _ in subterms(t)), repr(t)))
        live = {g.exitnode.id}; w = [g.exitnode]
        while w:
            x = w.pop()
            for p in x.pred:
                if p.id not in live: live.add(p.id); w.append(p)
        self.live = live        # instructions from which a normal return can be reached
        self.leavers = {}
        for h, body in self.heads.items():
            for x in body:
                for s in g.instrs[x].succ:
                    if s.id not in body and s.id in live: self.leavers.setdefault(s.id, set()).add(h)
        self.leaves = {h: [] for h in self.heads}      # (ts, state, instr) when leaving the loop at h
        self.backs = {h: [] for h in self.heads}       # (ts, state, instr) when going round
        self.temps = {h: set(self.tempterms(body)) for h, body in self.heads.items()}
    def tempterms(self, body):
        for x in body:
            i = self.g.instrs[x]
            if i.op == 'call': yield i.a[3]
            elif i.op == 'new': yield i.a
            elif i.op == 'ret': yield i.a[0]
            elif i.op == 'assign' and i.n is not None: yield ('t', i.ctx.id, i.n)
            elif i.op == 'leave': yield ('r', i.ctx.id)
    def writes(self, i):
        """locations an instruction changes (as written in the source)"""
        if i.op in ('assign', 'init', 'decl', 'ret'):
            if i.a[0] is not None: yield i.a[0]
            if i.op == 'assign' and i.n is not None: yield ('t', i.ctx.id, i.n)
        elif i.op == 'new': yield i.a
        elif i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            yield res
            nd = i.node; sh = fn.split('::')[-1]
            if ob is not None and nd['k'] == 'call' and not nd.get('const') and sh not in READS and nd.get('op') not in ('->', '*', '==', '!=', '<', '[]') and ob[0] in ('v', 'f', 'x', 'd', 'g'):
                if not (nd.get('op') in ASSIGN_OPS or nd.get('op') in ('++', '--')):
                    ot = i.ctx.fn.nodes[nd['obj']].get('t', '')
                    yield norm(('d', ob)) if is_ptr(ot) or is_smart(ot) else ob
            pts = nd.get('pt', [])
            for k, a in enumerate(args):
                pt = pts[k] if k < len(pts) else ''
                if a[0] == 'addr' and not pt.startswith('const '): yield a[1]
                elif pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('const &') and not pt.endswith('&&') and a[0] in ('v', 'f', 'x', 'g', 'd'): yield a
                elif pt.endswith('*') and not pt.startswith('const ') and a[0] in ('v', 'f') and k < len(nd.get('c', [])) and i.ctx.fn.nodes[nd['c'][k]].get('t', '').endswith(']'): yield a
    def chosen(self, i):
        """the conditional expression an outcome decides, when one of its arms changes something the condition looks at"""
        if i.n is None or i.n < 0: return None
        pm = i.ctx.fn.parent_map(); n = i.n; pol = i.a[1]; N = i.ctx.fn.nodes
        for _ in range(12):
            ps = pm.get(n, [])
            if len(ps) != 1: return None
            p = N[ps[0]]; k = p.get('k')
            if k == 'cond':
                if p['c'][0] != n: return None
                t = self.g.term(i.ctx, ps[0])
                if t[0] != '?' or not any(s[0] == 't' for a in t[2:] for s in subterms(a)): return None
                return t, (2 if pol else 3)
            if k == 'un' and p['op'] == '!': pol = not pol
            elif k == 'bin' and p['op'] in ('&&', '||'):
                if pol == (p['op'] == '&&') and p['c'][-1] != n: return None
            elif k not in ('cast', 'paren'): return None
            n = ps[0]
        return None
    # ---- transfer
    def apply(self, i, st):
        op = i.op
        if op == 'assume':
            out = st.assume(st.val(i.a[0]), i.a[1])
            c = self.chosen(i)
            return [x.set(c[0], ('arm', c[1])) for x in out] if c else out
        if op in ('decl', 'init', 'assign', 'ret'):
            l, r = i.a
            if l is None: return [st]
            if op == 'decl' and i.node:
                sa = self.array_decl(i, st)
                if sa is not None: return [sa]
            L = st.loc(l) if op != 'decl' and op != 'ret' else l
            nd = i.node if op == 'assign' and i.node else {}
            if op == 'assign' and (nd.get('op') in ('++', '--', 'p++', 'p--')):
                old = st.val(l)
                nv = ('b', nd['op'][-1], old, ('i', 1))
                if old[0] == 'i': nv = ('i', old[1] + (1 if nd['op'][-1] == '+' else -1))
                post = nd['op'][0] == 'p' or (nd.get('k') == 'call' and len(nd.get('c', [])) > 0)
                st = st.set(L, nv)
                return [st.set(('t', i.ctx.id, i.n), old if post else nv)]
            if op == 'assign' and nd.get('k') == 'call' and nd.get('op') in ASSIGN_OPS and nd['op'] != '=':
                a = self.term_args(i)
                nv = ('b', nd['op'][:-1], st.val(l), st.val(a[0]) if a else I0)
                return [st.set(L, nv)]
            if r is None:
                return [st.set(L, ('undef', l) if op == 'decl' and not self.classy(i) else ('new', i.ctx.id, i.n, l) if op == 'decl' else None)]
            v = st.val(r)
            if op == 'ret' and strip_t(i.ctx.fn.ret) in ('bool', '_Bool') and v[0] != 'i':
                out = [s.set(L, ('i', 1)) for s in st.assume(v, True)] + [s.set(L, ('i', 0)) for s in st.assume(v, False)]
                return out
            return [st.set(L, v)]
        if op == 'new':
            return [st.set(i.a, ('new', i.ctx.id, i.n))]
        if op == 'call':
            fn, ob, args, res = i.a
            nd = i.node
            if i.ctx.calls.get(i.n) is not None: return [st]
            v = self.call_value(i, st)
            if v is None:
                callee = st.val(ob) if ob is not None else None
                if not fn and nd.get('fnx') is not None: callee = st.val(self.g.term(i.ctx, nd['fnx']))   # called through a pointer
                v = ('call', i.ctx.id, i.n, fn, callee) + tuple(st.val(a) for a in args)
            for t in self.writes(i):
                if t == res: continue
                L = st.loc(t)
                st = st.set(L, self.mutated(i, t, st, L))
            return [st.set(res, v)]
        return [st]
    def mutated(self, i, t, st, L):
        fn, ob, args, res = i.a
        if ob is not None and t == ob and fn.startswith(('std::basic_string<', 'std::__cxx11::basic_string<', 'std::basic_string::')):
            sh = fn.split('::')[-1]
            if sh == 'clear': return ('s', '')
            if len(args) == 1 and sh in ('append', 'push_back'): return ('b', '+', st.val(L), st.val(args[0]))
            if len(args) == 2 and sh == 'insert' and args[0] == I0: return ('b', '+', st.val(args[1]), st.val(L))
            if len(args) == 1 and sh == 'assign': return strip_str(st.val(args[0]))
        return ('out', i.ctx.id, i.n, L)
    def array_decl(self, i, st):
        """elements of a local array with an initialiser, each its own location"""
        l = i.a[0]
        v = i.node
        if v.get('t', '').endswith(']') and 'd' in v:
            nodes = i.ctx.fn.nodes
            st = st.set(l, None)
            n = nodes[v['init']] if v.get('init') is not None else None
            if n is not None and n['k'] == 'init':
                for k, c in enumerate(n['c']):
                    st = st.set(('x', l, ('i', k)), st.val(self.g.term(i.ctx, c)))
            elif n is not None and n['k'] == 'ctor' and is_string_t(n.get('t', '').split('[')[0]):
                m = n['t'].split('[')[-1].rstrip(']')
                if m.isdigit():
                    for k in range(min(int(m), 64)): st = st.set(('x', l, ('i', k)), ('s', ''))
            return st
        return None
    def classy(self, i):
        return not (is_ptr(i.node.get('t', '')) or scalar_t(i.node.get('t', '')))
    def term_args(self, i):
        return [self.g.term(i.ctx, c) for c in i.node.get('c', [])]
    def call_value(self, i, st):
        fn, ob, args, res = i.a
        nd = i.node
        sh = fn.split('::')[-1]
        if nd['k'] == 'ctor':
            if is_string_t(nd.get('t', '')) and args:
                return strip_str(st.val(args[0]))
            if nd.get('cc') and args: return st.val(args[0])
            if is_string_t(nd.get('t', '')): return ('s', '')
            return None
        if sh == 'operator+' or nd.get('op') == '+' :
            xs = ([ob] if ob is not None else []) + list(args)
            if len(xs) == 2: return ('b', '+', st.val(xs[0]), st.val(xs[1]))
        if sh in ('strcmp', 'xmlStrcmp', 'strcasecmp', 'xmlStrEqual') or sh in PURE_FUNCS:
            return ('c', fn, None) + tuple(st.val(a) for a in args)
        if sh in ('find', 'begin', 'end', 'get', 'front', 'back', 'c_str', 'size', 'length') and ob is not None:
            return ('c', fn, st.val(ob)) + tuple(st.val(a) for a in args)
        return None
    # ---- fixpoint
    def enter_head(self, h, st, src):
        loops = self.temps[h]; body = self.heads[h]
        def stale(x):
            for s in subterms(x):
                if not isinstance(s, tuple): continue
                if s[0] == 'phi' and s[1] in body and s[1] != h: return True
                if s[0] == 'phi' and s[1] == h: return True
                if s[0] in ('t', 'r') and s in loops: return True
                if s[0] in ('new', 'call', 'out') and ('t', s[1], s[2]) in loops: return True
            return False
        new = st
        for t in self.mods[h]:
            L = new.loc(t)
            v = st.val(t)
            self.phis.setdefault((h, t), {})[(src, v, st.conds)] = True
            if t[0] in ('t', 'r'): new = new.set(t, None)
            else: new = new.set(L, ('phi', h, t))
        conds = frozenset(c for c in new.conds if not any(isinstance(x, tuple) and stale(x) for x in c[0][1:]))
        env = new.env
        old = [k for k in env if k[0] == 'x' and stale(k)]
        if old: env = {k: v for k, v in env.items() if k not in old}
        return VS(env, conds)
    def run(self, loop=None):
        """all paths from the entry; with loop, only the paths of one round of that loop (from its head)"""
        import heapq
        g = self.g
        first = g.entry if loop is None else g.instrs[loop]
        within = None if loop is None else self.heads[loop]
        order_ = {}
        seen = set(); st = [(first, iter(first.succ))]; seen.add(first.id); post = []
        while st:
            n, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id); st.append((s, iter(s.succ))); break
            else:
                post.append(n.id); st.pop()
        rank = {n: k for k, n in enumerate(reversed(post))}
        s0 = VS({}, frozenset())
        if loop is not None:
            for t in self.mods[loop]:
                if t[0] not in ('t', 'r'): s0 = s0.set(s0.loc(t), ('phi', loop, t))
        self.states = {first.id: {(self.start(), s0.key()): (self.start(), s0)}}
        done = {}
        work = [(0, first.id)]; inq = {first.id}
        while work:
            _, iid = heapq.heappop(work); inq.discard(iid)
            i = g.instrs[iid]
            d = done.setdefault(iid, set())
            for k in list(self.states[iid]):
                if k in d: continue
                d.add(k)
                ts, s = self.states[iid][k]
                self.visits += 1
                if self.visits > 400000: raise AnalysisError('value analysis of %s does not converge' % g.root.name)
                outs = []
                for ts2 in self.event(i, ts, s):
                    for s2 in self.apply(i, s):
                        ts3 = self.cond(i, s2, ts2, s) if i.op == 'assume' else ts2
                        outs.append((ts3, s2))
                for h in self.leavers.get(iid, ()):
                    self.leaves[h] += [(ts2, s2, i) for ts2, s2 in outs]
                for nx in i.succ:
                    if within is not None and (nx.id not in within or nx.id == loop):
                        if nx.id == loop:
                            self.backs[loop] += [(ts2, s2, i) for ts2, s2 in outs]
                            for ts2, s2 in outs: self.enter_head(loop, s2, iid)
                        else: self.outside.setdefault(nx.id, []).extend((ts2, s2, i) for ts2, s2 in outs)
                        continue
                    if (iid, nx.id) in self.back: self.backs[nx.id] += [(ts2, s2, i) for ts2, s2 in outs]
                    tgt = self.states.setdefault(nx.id, {})
                    for ts2, s2 in outs:
                        if nx.id in self.heads:
                            s2 = self.enter_head(nx.id, s2, iid)
                            ts2 = self.at_head(nx.id, ts2, (iid, nx.id) in self.back)
                        if len(tgt) > self.CAP:
                            self.collapsed = True
                            s2 = VS({k: v for k, v in s2.env.items() if k[0] in ('t', 'r') and False}, frozenset())
                        kk = (ts2, s2.key())
                        if kk not in tgt:
                            tgt[kk] = (ts2, s2)
                            if nx.id not in inq: inq.add(nx.id); heapq.heappush(work, (rank[nx.id], nx.id))
        return self
    def at(self, i):
        return list(self.states.get(i.id, {}).values())
    def exits(self):
        """[(ts, state, return value)]"""
        r = ('r', self.g.entry.ctx.id)
        return [(ts, s, s.env.get(r)) for ts, s in self.at(self.g.exitnode)]

def sv(v):
    """readable value"""
    if not isinstance(v, tuple): return str(v)
    k = v[0]
    if k == 'phi': return show(v[2])
    if k == 'new': return '<new>'
    if k in ('call',): return '%s(%s)' % (v[3].split('::')[-1], ', '.join(sv(x) for x in v[4:] if x is not None))
    if k == 'out': return '<changed %s>' % sv(v[3])
    if k == 'f': return sv(v[1]) + '.' + v[2] if v[1][0] != 'this' else v[2]
    if k == 'd': return '*' + sv(v[1])
    if k == 'b': return '(%s %s %s)' % (sv(v[2]), v[1], sv(v[3]))
    if k == 'c': return '%s%s(%s)' % (sv(v[2]) + '.' if v[2] else '', v[1].split('::')[-1], ', '.join(sv(x) for x in v[3:]))
    return show(v)
def sc(c):
    a, p = c
    if a[0] == 'empty': return '%s is %sempty' % (sv(a[1]), '' if p else 'not ')
    if a[0] == 'ieq': return '%s %smatches %s' % (sv(a[1]), '' if p else 'not ', sv(a[2]))
    return '%s %s %s' % (sv(a[1]), {('==', True): '==', ('==', False): '!=', ('<', True): '<', ('<', False): '>='}.get((a[0], p), a[0]), sv(a[2]))
