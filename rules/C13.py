"""C13: the HTML parser stays inside its input, always advances, and reports everything exactly once, in order."""
from mp.common import *
from mp.lin import *
from mp.report import Result
TECHNIQUE = 'affine-relation dataflow (equalities and inequalities over cursors, lengths and the terminating NUL) with a ghost report cursor; cycle-progress analysis'
EV = 'metaproxy_1::HTMLParserEvent'
E = ('ghost', 'E')       # everything before E has been reported
C = ('ghost', 'C')       # between the report cursor and here only white space and delimiters of a tag
S = ('ghost', 'S')       # last character looked at

def same(st, p, G): return st.enteq(ladd(p, L(0, (G, 1)), -1))

class ParserFlow(LinFlow):
    def __init__(self, g, src):
        LinFlow.__init__(self, g)
        self.src = src
        self.rep = None
    def entry(self):
        p = L(0, (self.src, 1))
        st = LS().assume_ge(ladd(L(0, (NUL, 1)), p, -1)).assume_eq(ladd(L(0, (E, 1)), p, -1)).assume_eq(ladd(L(0, (C, 1)), p, -1))
        return {('text', False, False, False): st}
    def extra_templates(self):
        e, n, s = L(0, (E, 1)), L(0, (NUL, 1)), L(0, (S, 1))
        c = L(0, (C, 1))
        out = [ladd(n, e, -1), ladd(n, s, -1), ladd(s, e, -1), ladd(n, c, -1), ladd(c, e, -1), ladd(s, c, -1), ladd(c, s, -1)]
        st = LS()
        for i in self.g.instrs:
            if i.op == 'acc' and self.is_char(i.a):
                p = self.pos(i.a, st)
                if p is not None: out.append(ladd(p, e, -1)); out.append(ladd(s, p, -1)); out.append(ladd(p, c, -1))
            if i.op == 'call' and i.a[0].startswith(EV + '::'):
                a = [self.lin(x, st) for x in i.a[2]]
                out += [x for x in a[1::2] if x]
                for k in range(len(a) - 1):
                    if a[k] and a[k + 1]: out.append(ladd(ladd(n, a[k], -1), a[k + 1], -1)); out.append(ladd(a[k], e, -1))
        return out
    def chk(self, i, kind, ok, msg):
        if self.rep is not None: self.rep(i, kind, ok, msg)
    def inside(self, i, st, p, kind, what):
        self.chk(i, kind, p is not None and st.ent(ladd(L(0, (NUL, 1)), p, -1)), what)
    def event(self, i, ts, st):
        mode, nbc, nbs, _ = ts
        if i.op == 'acc' and i.a[0] in ('x', 'd') and char_t(i.node.get('t', '')):
            ext = extent(i)
            p = self.pos(i.a, st)
            if ext is not None:
                ix = self.lin(i.a[2], st)
                self.chk(i, 'array', ix is not None and st.ent(ix) and st.ent(ladd(L(ext - 1), ix, -1)), 'index of a local array may be outside it')
            else:
                self.inside(i, st, p, 'read', 'reads a character that may lie behind the end of the input')
                if p is None or not same(st, p, S): nbs = False
                st = st.assign(S, p)
        elif i.op == 'assume':
            yield from self.on_assume(i, i.a[0], i.a[1], ts, st)
            return
        elif i.op == 'call' and i.a[0] in ('strspn', 'strcspn') and i.a[2]:
            fn, ob, args, res = i.a
            p = self.lin(args[0], st)
            if p is not None:
                q = ladd(p, L(0, (('c', fn, None) + tuple(args), 1)))
                st = st.assign(S, q); nbs = False
                if fn == 'strspn' and args[1][0] == 's' and args[1][1].isspace():
                    nbs = True
                    if mode == 'tag' and (same(st, p, E) or same(st, p, C)): st = st.assign(C, q); nbc = True
        elif i.op == 'call' and i.a[0].startswith(EV + '::') and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            sh = fn.split('::')[-1]
            a = [self.lin(x, st) for x in args]
            if sh == 'text' and len(a) == 2:
                st = self.span(i, st, a[0], a[1], 0, 'text')
                nbc = False
            elif sh == 'openTagStart' and len(a) == 2:
                st = self.span(i, st, a[0], a[1], 1, 'tag name'); mode = 'tag'; nbc = False
            elif sh == 'closeTag' and len(a) == 2:
                st = self.span(i, st, a[0], a[1], 2, 'tag name'); mode = 'tag'; nbc = False
            elif sh == 'attribute' and len(a) >= 6:
                # name and value lie inside the input, not before what was reported; parsing resumes at the last character looked at
                self.inside(i, st, ladd(a[2], a[3]) if a[2] and a[3] else None, 'span', 'attribute name reaches behind the end of the input')
                self.chk(i, 'order', a[2] is not None and st.ent(ladd(a[2], L(0, (E, 1)), -1)), 'attribute reported that starts before what was already reported')
                self.chk(i, 'len', a[3] is not None and st.ent(a[3]), 'length of an attribute name may be negative')
                st = st.assign(E, L(0, (S, 1))).assign(C, L(0, (S, 1))); nbc = nbs
        yield (mode, nbc, nbs, same(st, L(1, (S, 1)), C)), st
    def charat(self, t, st):
        if not self.is_char(t): t = st.defs.get(t, t)
        return self.pos(t, st) if self.is_char(t) else None
    def solid(self, t, pol, st):
        """position of a character that the assumption shows to be no white space (the NUL is none)"""
        while t[0] == '!': t = t[1]; pol = not pol
        if t[0] == 'b' and t[1] in ('!=', '==') and t[3][0] == 'i':
            if t[3][1] == 0:
                if t[1] == '==': pol = not pol
                t = t[2]
            else:
                if (t[1] == '==') == pol and t[3][1] > 32: return self.charat(t[2], st)
                return None
        t = st.defs.get(t, t) if not self.is_char(t) else t
        if pol: return None
        if t[0] == 'c' and t[1] == 'strchr' and t[3][0] == 's' and ' ' in t[3][1]: return self.charat(t[4], st)
        if t[0] == 'c' and t[1] in ('isspace', 'yaz_isspace'): return self.charat(t[3], st)
        if self.is_char(t): return self.pos(t, st)
        return None
    def blank(self, t, pol, st):
        while t[0] == '!': t = t[1]; pol = not pol
        if t[0] == 'b' and t[1] in ('!=', '==') and t[3] == ('i', 0):
            if t[1] == '==': pol = not pol
            t = t[2]
        t = st.defs.get(t, t)
        if pol and t[0] == 'c' and t[1] in ('strchr', 'isspace', 'yaz_isspace'):
            if t[1] == 'strchr':
                if t[3][0] != 's' or not t[3][1].isspace(): return None
                c = t[4]
            else: c = t[3]
            if not self.is_char(c): c = st.defs.get(c, c)
            if self.is_char(c): return self.pos(c, st)
        return None
    def on_assume(self, i, t, pol, ts, st):
        mode, nbc, nbs, _ = ts
        p = self.solid(t, pol, st)
        if p is not None:
            if same(st, p, C): nbc = True
            if same(st, p, S): nbs = True
        q = self.blank(t, pol, st)
        if q is not None and (nbc and same(st, q, C) or nbs and same(st, q, S)): return
        if q is None: q = self.delim(t, pol, st)
        if q is not None:
            # white space and delimiters between the parts of a tag carry no event
            if mode == 'tag' and (same(st, q, E) or same(st, q, C)): st = st.assign(C, ladd(q, L(1))); nbc = False
        else:
            q = p if p is not None else self.delim(t, not pol, st) or self.nodelim(t, pol, st)
            if q is not None:
                if same(st, q, E): st = st.assign(C, L(0, (E, 1))); nbc = p is not None
                elif same(st, ladd(q, L(1)), C): st = st.assign(C, q); nbc = p is not None
        yield (mode, nbc, nbs, same(st, L(1, (S, 1)), C)), st
    def delim(self, t, pol, st):
        while t[0] == '!': t = t[1]; pol = not pol
        if t[0] == 'b' and t[1] in ('==', '!='):
            if (t[1] == '==') != pol: return None
            a, b = t[2], t[3]
            if a[0] == 'i': a, b = b, a
            if b[0] != 'i' or b[1] not in (ord('/'), ord('>')): return None
            if not self.is_char(a): a = st.defs.get(a, a)
            if self.is_char(a): return self.pos(a, st)
        return None
    def nodelim(self, t, pol, st):
        """the character was looked up in a set of delimiters and not found"""
        while t[0] == '!': t = t[1]; pol = not pol
        if t[0] == 'b' and t[1] in ('!=', '==') and t[3] == ('i', 0):
            if t[1] == '==': pol = not pol
            t = t[2]
        if not pol and t[0] == 'c' and t[1] == 'strchr' and t[3][0] == 's' and '>' in t[3][1]: return self.charat(t[4], st)
        return None
    def span(self, i, st, p, n, off, what):
        if p is None or n is None:
            self.chk(i, 'span', False, 'extent of the reported %s is not known' % what)
            return st.forget(E).forget(C)
        self.chk(i, 'gap', any(st.enteq(ladd(ladd(p, L(0, (G, 1)), -1), L(-off))) for G in (E, C)), 'reported %s does not start right behind what was reported before: input is lost or reported twice' % what)
        self.inside(i, st, ladd(p, n), 'span', 'reported %s reaches behind the end of the input' % what)
        self.chk(i, 'len', st.ent(n), 'length of the reported %s may be negative' % what)
        return st.assign(E, ladd(p, n)).assign(C, ladd(p, n))
    def keep(self, s): return s[0] == 'ghost'

def char_t(t): return strip_t(t) in ('char', 'unsigned char', 'signed char')
def extent(i):
    nd = i.ctx.fn.nodes[i.node['c'][0]] if i.node.get('c') else {}
    t = nd.get('t', '')
    if t.endswith(']') and '[' in t:
        try: return int(t[t.rindex('[') + 1:-1])
        except ValueError: return None
    return None

def parse_root(P):
    """the public entry that takes an event sink and a string"""
    out = []
    for f in P.fns.values():
        if any(EV in strip_t(p['t']) for p in f.params) and any(strip_t(p['t']) in ('char *', 'const char *') for p in f.params) \
           and not [c for c, n in f.callers if c.tu == f.tu and c is not f]:
            out.append(f)
    return out

def run(P, tier):
    R = Result('on every path through the parser: each character read and each reported span lies at or before the terminating NUL, spans follow each other without gap or overlap except for tag delimiters, the whole input has been reported at return, and every cycle moves a cursor forward')
    R.assumptions = ['the caller passes a NUL-terminated string that nobody changes during the call', 'event sinks do not call back into the parser']
    for f in parse_root(P):
        g = graph(P, f)
        src = None
        for p in f.params:
            if strip_t(p['t']) in ('char *', 'const char *'): src = ('v', f.tu, p['d'], 0, p['n'])
        fl = ParserFlow(g, src)
        fl.run()
        R.functions |= set(c.fn.key for c in g.ctxs); R.count('entry_points')
        def rep(i, kind, ok, msg):
            R.ob((kind, i.ctx.fn.key, i.n, kind), '%s at %s' % (kind, i.loc()))
            R.count(kind)
            if not ok:
                R.violation('C13|%s|%s|%s' % (kind, i.ctx.fn.name, msg), i.loc(), '%s: %s' % (short(i.ctx.fn.name), msg), callstack(i))
        fl.rep = rep
        for i in g.instrs:
            for ts, st in fl.at(i):
                for _ in fl.event(i, ts, st): pass
        for ts, st in fl.at(g.exitnode):
            R.ob(('exit', f.key, ts)); R.count('exit')
            if not any(st.enteq(ladd(L(0, (NUL, 1)), L(0, (G, 1)), -1)) for G in (E, C)):
                R.violation('C13|exit|%s' % f.name, f.loc(), '%s may return although the end of the input has not been reported' % short(f.name))
        progress(R, g, fl)
    R.need('entry_points', 1); R.need('read', 8); R.need('gap', 3)
    return R

def progress(R, g, fl):
    """every cycle of the flow graph contains a step that moves some cursor strictly forward"""
    adv = set()
    for i in g.instrs:
        if i.op == 'assign' and i.a[1] is not None and i.a[0][0] in ('v', 'f', 'd'):
            ok = bool(fl.at(i))
            for ts, st in fl.at(i):
                x = fl.lin(i.a[1], st)
                d = None if x is None else ladd(x, L(0, (i.a[0], 1)), -1)
                if d is None or not st.ent(ladd(d, L(-1))): ok = False
            if ok: adv.add(i.id)
    live = set(i.id for i in g.instrs if fl.at(i))
    # loops: strongly connected components once advancing steps are taken out
    for comp in sccs(g, live - adv):
        ids = [k for k in comp if g.instrs[k].line]
        i = g.instrs[min(ids, key=lambda k: g.instrs[k].line)] if ids else g.instrs[comp[0]]
        R.violation('C13|progress|%s' % i.ctx.fn.name, i.loc(), '%s: a loop can go round without moving forward in the input' % short(i.ctx.fn.name), callstack(i))
    n = len(list(sccs(g, live)))
    R.count('loops', n)
    for k in range(n): R.ob(('loop', g.root.key, k))

def sccs(g, allowed):
    """non-trivial strongly connected components of the subgraph of allowed instruction ids (iterative Tarjan)"""
    idx = {}; low = {}; onst = set(); st = []; out = []; n = 0
    for r in allowed:
        if r in idx: continue
        work = [(r, iter([s.id for s in g.instrs[r].succ if s.id in allowed]))]
        idx[r] = low[r] = n; n += 1; st.append(r); onst.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; st.append(w); onst.add(w)
                    work.append((w, iter([s.id for s in g.instrs[w].succ if s.id in allowed])))
                    break
                elif w in onst: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); onst.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1 or any(s.id == v for s in g.instrs[v].succ): out.append(c)
    return out
