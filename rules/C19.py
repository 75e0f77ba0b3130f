"""C19: an answer is of the kind its request calls for and carries that request's reference."""
from mp.common import *
from mp.unions import union_of
from mp.report import Result
from rules.C08 import GDUGET, UnionFlow, multi_classes
from rules.C07 import processes, terms_of
TECHNIQUE = 'path-sensitive must-facts dataflow over whole-program inlined control-flow graphs: kind and reference of every answer made, from where it is made to where it becomes the response'

def kinds(P):
    return [union_of(f['t'])['const'] for f in P.recs['Z_APDU']['fields'] if f['n'] == 'u'][0]

def pairs(K):
    """request kind -> kind of its answer"""
    out = {}
    for m, v in K.items():
        if m.endswith('Request') and m[:-7] + 'Response' in K: out[v] = K[m[:-7] + 'Response']
    return out

def is_apdu(t): return strip_t(t) in ('Z_APDU *', 'const Z_APDU *', 'Z_APDU const *')

def transferrers(P):
    """functions that give one message the reference of another: key -> (index of the source, index of the target)"""
    out = {}
    for f in P.fns.values():
        ps = f.params
        a = [k for k, p in enumerate(ps) if strip_t(p['t']).startswith('Z_APDU') or strip_t(p['t']).startswith('const Z_APDU')]
        if len(a) < 2 or strip_t(f.ret) != 'void': continue
        g = graph(P, f, opaque=ref_of(P))
        got = [i for i in g.instrs if i.op == 'call' and i.node.get('key') in refs(P)]
        by = {}
        for i in got:
            for x in i.a[2]:
                for k in a:
                    if x[0] == 'v' and x[2] == ps[k]['d'] and x[3] == 0: by[k] = i.a[3]
        if len(by) < 2: continue
        # which of the two is written
        out[f.key] = (f, by)
    return out

_ref = {}
def refs(P):
    """functions that return where the reference of a message is kept"""
    if not _ref:
        for f in P.fns.values():
            if f.ret.replace('const ', '').replace(' ', '') in ('odr_oct**', 'Z_ReferenceId**', 'Odr_oct**') and any(is_apdu(p['t']) for p in f.params): _ref[f.key] = f
    return _ref
def ref_of(P):
    r = refs(P)
    return lambda fn: fn.key in r

class Copies(Flow):
    """ts: what has been done to the place of the target: '' nothing, 'z' cleared, 'c' given a copy of the source's"""
    def __init__(self, g, src, dst):
        Flow.__init__(self, g); self.src = src; self.dst = dst         # parameters
    def start(self): return ''
    def holds(self, t, facts, what):
        return any(('kept', x, what) in facts.s for x in [t] + facts.alias(t))
    def base(self, i, facts):
        f = Flow.base(self, i, facts)
        if f is None: return None
        if i.op in ('assign', 'decl') and i.a[0] is not None and i.a[1] is not None:
            for w in ('src', 'dst'):
                if self.holds(i.a[1], facts, w): f = f.add([('kept', i.a[0], w)])
            if i.a[1][0] == 't' and ('copy', i.a[1]) in facts.s: f = f.add([('copy', i.a[0])])
        if i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            if i.node.get('key') in _ref:
                for w, v in (('src', self.src), ('dst', self.dst)):
                    if any(x == v for y in args for x in [y] + facts.alias(y)): f = f.add([('kept', res, w)])
            if fn.split('::')[-1] in ('odr_create_Odr_oct', 'odr_strdupn') and len(args) >= 3:
                def part(t, n):
                    return any(x[0] == 'f' and x[2] == n and x[1][0] == 'd' and self.holds(x[1][1], facts, 'src') for x in [t] + facts.alias(t))
                if part(args[1], 'buf') and part(args[2], 'len'): f = f.add([('copy', res)])
        return f
    def step(self, i, ts, facts):
        if i.op == 'assume':
            f = self.base(i, facts)
            if f is None: return
            if ts != 'c' and absent(f, self.src): ts = 'n'
        if i.op == 'assign' and i.a[0] is not None and i.a[0][0] == 'd' and self.holds(i.a[0][1], facts, 'dst'):
            r = i.a[1]
            if ('copy', r) in facts.s: ts = 'c'
            elif r == I0: ts = 'n' if ts == 'n' else 'z'
            else: ts = '?'
        yield ts, facts

def absent(facts, src):
    """the source has no reference to give"""
    if facts.isnull(src): return True
    return any(facts.isnull(a[1]) or facts.isnull(('d', a[1])) for a in facts.s if a[0] == 'kept' and a[2] == 'src')

def makers(P, T):
    """functions that make a message: key -> (kind or index of the parameter that names it, index of the parameter whose reference it gets)"""
    out = {}
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.key in out or not is_apdu(f.ret) or not f.blocks: continue
            if not any(is_apdu(p['t']) for p in f.params): continue
            pi = {p['d']: k for k, p in enumerate(f.params)}
            def par(n):
                nd = f.nodes[n]
                while nd.get('k') == 'cast': nd = f.nodes[nd['c'][0]]
                return pi.get(nd.get('d')) if nd.get('k') == 'ref' else None
            kind = None; ref = None
            for nd in f.calls():
                c = nd.get('c', [])
                if nd.get('fn') == 'zget_APDU' and len(c) > 1:
                    kind = ('k', f.nodes[c[1]]['cv']) if 'cv' in f.nodes[c[1]] else ('p', par(c[1]))
                elif nd.get('key') in T:
                    for k, x in enumerate(c):
                        if k == T[nd['key']][0] and par(x) is not None: ref = par(x)
                elif nd.get('key') in out:
                    mk, mr = out[nd['key']]
                    if mk[0] == 'k': kind = mk
                    elif mk[1] < len(c): kind = ('k', f.nodes[c[mk[1]]]['cv']) if 'cv' in f.nodes[c[mk[1]]] else ('p', par(c[mk[1]]))
                    if mr < len(c): ref = par(c[mr])
            if kind is not None and kind[1] is not None and ref is not None: out[f.key] = (kind, ref); ch = True
    return out

def kept_gdus(g):
    """members, other than of packages, that keep a message"""
    out = set()
    for r in g.prog.recs.values():
        for f in r['fields']:
            if strip_t(f['t']).split('::')[-1] == 'GDU' and f['n'] not in ('m_request_gdu', 'm_response_gdu'): out.add(f['n'])
    return out

class Answer(UnionFlow):
    def key(self, ts, facts):
        t, k = UnionFlow.key(self, ts, facts)
        return t, k | frozenset(('eq', 'which', a[2]) for a in facts.s if a[0] == 'eq' and a[1][0] == 'f' and a[1][2] == 'which' and a[1][1][0] == 'f' and a[1][1][2] == 'z3950' and self.request_of(a[1][1], facts) is not None)

    """facts: ('reqof', x, package) x is (part of) the request of a package or a copy of it, ('made', x, kind), ('ref', x) it has the reference of the request, ('asked', package, kind, reference) what a derived package is sent with"""
    def __init__(self, g, M, T, K):
        UnionFlow.__init__(self, g, {}, {}, {})
        self.M = M; self.TR = T; self.K = K
        self.pkg = g.root.params[0]['d']
        self.keep = kept_gdus(g)
        gv = set()
        for i in g.instrs:
            for t in terms_of(i):
                for s in allterms(t):
                    if s[0] == 'c' and s[1] == GDUGET and len(s) > 2:
                        o = s[2]
                        while o[0] in ('d', 'addr'): o = o[1]
                        if o[0] == 'f' and o[2] == 'm_request_gdu' and self.mine(o[1]): gv |= set([('ne', s, 0), ('eq', ('f', s, 'which'), 1), ('eq', ('f', ('d', s), 'which'), 1)])
        self.gv = sorted(gv, key=str)
    def mine(self, t):
        while t[0] in ('d', 'addr'): t = t[1]
        return t[0] == 'v' and t[3] == 0 and t[2] == self.pkg
    def entry_facts(self): return self.gv
    def request_of(self, t, facts):
        """the package whose request message t is"""
        for x in [t] + facts.alias(t):
            for s in allterms(x):
                if s[0] == 'f' and s[2] == 'm_request_gdu' and s == x: return s[1]
                if s[0] == 'c' and s[1] == GDUGET and len(s) > 2:
                    o = s[2]
                    while o[0] in ('d', 'addr'): o = o[1]
                    if o[0] == 'f' and o[2] == 'm_request_gdu': return o[1]
                    for y in [o] + facts.alias(o):
                        if y[0] == 'f' and y[2] == 'm_request_gdu': return y[1]
                        for a in facts.s:
                            if a[0] == 'reqof' and a[1] == y: return a[2]
        for a in facts.s:
            if a[0] == 'reqof' and a[1] == t: return a[2]
        return None
    def made(self, t, facts):
        """(place, kind, 1 if it has the reference of the request)"""
        al = [t] + facts.alias(t)
        for x in al:
            for a in facts.s:
                if a[0] == 'made' and a[1] == x: return x, a[2], 1 if any(('ref', y) in facts.s for y in al) else 0
        return None
    def mark(self, f, x, kind, ref):
        f = Facts(frozenset(a for a in f.s if not (a[0] in ('made', 'ref') and a[1] == x)))
        return f.add([('made', x, kind)] + ([('ref', x)] if ref else []))
    def kind_of(self, i, facts):
        m = self.M.get(i.node.get('key'))
        if m is None: return None
        k, r = m
        v = k[1] if k[0] == 'k' else facts.value(i.a[2][k[1]])
        return v, i.a[2][r]
    def base(self, i, facts):
        f = UnionFlow.base(self, i, facts)
        if f is None: return None
        if i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            m = self.kind_of(i, facts)
            if m is not None:
                own = self.request_of(m[1], facts) is not None or (self.made(m[1], facts) or (0, 0, 0))[2]
                f = self.mark(f, res, m[0] or 0, own).add([('ne', res, 0)])
                if m[0] is not None: f = f.add([('eq', ('f', res, 'which'), m[0])])
            elif fn == 'zget_APDU' and len(args) > 1: f = self.mark(f, res, facts.value(args[1]) or 0, 0)
            elif i.node.get('key') in self.TR:
                s, d = self.TR[i.node['key']]
                if self.request_of(args[s], facts) is not None:
                    for X in self.response_of(args[d], facts): f = f.add([('given', X)])
                    st = set(y for x in [args[d]] + facts.alias(args[d]) for y in allterms(x))
                    f = Facts(frozenset(x for x in f.s if not (x[0] == 'stored' and x[1] in st)))
                a = self.made(args[d], f)
                if a is not None and self.request_of(args[s], facts) is not None:
                    f = f.add([('ref', a[0])])
            elif fn == 'yazpp_1::GDU::GDU' and len(args) == 1:
                a = self.made(args[0], facts)
                if a is not None: f = self.mark(f, res, a[1], a[2])
                p = self.request_of(args[0], facts)
                if p is not None: f = f.add([('reqof', res, p)])           # a copy
        elif i.op in ('assign', 'decl', 'init', 'ret') and i.a[0] is not None and i.a[1] is not None:
            a = self.made(i.a[1], facts)
            if a is not None: f = self.mark(f, i.a[0], a[1], a[2])
            p = self.request_of(i.a[1], facts)
            if p is not None and i.a[0][0] in ('v', 'r'): f = f.add([('reqof', i.a[0], p)])
            for x in [i.a[1]] + facts.alias(i.a[1]):
                # what a received request carries according to its kind is there
                if p is not None and x[0] == 'f' and x[1][0] == 'f' and x[1][2] == 'u' and x[2] in self.K and facts.value(('f', x[1][1], 'which')) == self.K[x[2]]: f = f.add([('ne', i.a[0], 0)])
            l = i.a[0]
            if l[0] == 'f' and l[2] == 'm_request_gdu' and not self.mine(l[1]):
                f = Facts(frozenset(x for x in f.s if not (x[0] in ('asked', 'tested', 'given') and x[1] == l[1])))
                if a is not None: f = f.add([('asked', l[1]) + a[1:]])
            if i.a[1][0] == 'f' and i.a[1][2] in self.keep: f = f.add([('stored', l)])
            elif ('stored', i.a[1]) in facts.s: f = f.add([('stored', l)])
            elif l[0] == 'v': f = Facts(frozenset(x for x in f.s if not (x[0] == 'stored' and x[1] == l)))
            # reference set by hand
            if l[0] == 'f' and l[2] == 'referenceId':
                b = l[1]
                for x in [b] + facts.alias(b):
                    if x[0] == 'f' and x[1][0] == 'f' and x[1][2] == 'u':
                        a = self.made(x[1][1], f)
                        if a is not None and i.a[1] != I0: f = f.add([('ref', a[0])])
        elif i.op == 'assume':
            n = [('tested', X) for X in self.response_of(i.a[0], facts)]
            if n: f = f.add(n)
        return f.add(self.gv)
    def response_of(self, t, facts):
        """the packages of the proxy's own whose response t is about"""
        out = set()
        for x in [t] + facts.alias(t):
            for s in allterms(x):
                if s[0] == 'f' and s[2] == 'm_response_gdu' and not self.mine(s[1]): out.add(s[1])
                elif s[0] in ('v', 'r', 't'):
                    for y in facts.alias(s):
                        for z in allterms(y):
                            if z[0] == 'f' and z[2] == 'm_response_gdu' and not self.mine(z[1]): out.add(z[1])
        return out

def run(P, tier):
    R = Result('every answer made for a request is of the kind that the request calls for and has been given its reference before it becomes the response; an answer to a request of the proxy\'s own making does not become the response of the client\'s request')
    K = kinds(P); AN = pairs(K); names = {v: m for m, v in K.items()}
    UnionFlow.multi = multi_classes(P)
    table(P, R, K)
    T = {}
    for k, (f, by) in sorted(transferrers(P).items()):
        T.update(transfer(P, R, k, f, by))
    M = makers(P, T)
    for k in sorted(M):
        R.count('makers'); R.functions.add(k); R.ob((k, 'maker'), '%s makes %s' % (short(P.fns[k].name), names.get(M[k][0][1]) if M[k][0][0] == 'k' else 'what it is asked for'))
    for k in sorted(M): maker(P, R, P.fns[k], M, T, K, names)
    for r in processes(P):
        g = graph(P, r, cross=True, opaque=opaque(P, M, T))
        fl = None
        sites = [i for i in g.instrs if (i.op == 'call' and i.node.get('key') in M) or (i.op == 'assign' and i.a[0] is not None and i.a[0][0] == 'f' and i.a[0][2] == 'm_response_gdu')]
        if not sites: continue
        R.functions |= set(c.fn.key for c in g.ctxs); R.count('filters')
        fl = Answer(g, M, T, K).run()
        for i in sites:
            for ts, facts in fl.at(i):
                if i.op == 'call': at_maker(P, R, r, fl, i, facts, AN, names)
                else: at_response(P, R, r, fl, i, facts, AN, names)
    R.need('makers', 5); R.need('made', 20); R.need('responses', 20); R.need('kinds', 15)
    return R

_op = {}
def opaque(P, M, T):
    if 'f' not in _op: _op['f'] = lambda fn: fn.key in M or fn.key in T or fn.key in refs(P)
    return _op['f']

class Make(Answer):
    def __init__(self, g, M, T, K, ref):
        Answer.__init__(self, g, M, T, K); self.gv = []; self.ref = ref
    def request_of(self, t, facts):
        return self.ref if any(x == self.ref for x in [t] + facts.alias(t)) else None

def maker(P, R, f, M, T, K, names):
    """what it makes has got the reference of the request on every path"""
    kind, r = M[f.key]
    op = opaque(P, M, T)
    g = graph(P, f, opaque=lambda fn: fn.key != f.key and op(fn))
    p = f.params[r]
    fl = Make(g, M, T, K, ('v', f.tu, p['d'], 0, p['n'])).run()
    for i in g.instrs:
        if i.op != 'ret' or i.ctx is not g.ctxs[0] or i.a[1] is None: continue
        for ts, facts in fl.at(i):
            a = fl.made(i.a[1], facts)
            R.ob((f.key, i.n, 'returns', a[1:] if a else None), 'what %s returns' % short(f.name))
            if (a is None or not a[2]) and not facts.isnull(fl.ref):
                R.violation('C19|maker|%s' % f.name, i.loc(), '%s returns an answer that has not got the reference of the request on some path' % short(f.name), fl.path(i, ts))

def which(facts, x):
    return facts.value(('f', x, 'which'))

def at_maker(P, R, r, fl, i, facts, AN, names):
    k, src = fl.kind_of(i, facts)
    if k is None or k not in set(AN.values()): return
    R.count('made')
    w = which(facts, src); p = fl.request_of(src, facts)
    good = w is not None and AN.get(w) == k
    R.ob((i.ctx.fn.key, i.n, k, w), '%s at %s answers %s' % (names[k], i.loc(), names.get(w)))
    if p is None and fl.made(src, facts) is None:
        R.violation('C19|ref|%s' % i.ctx.fn.name, i.loc(), '%s makes a %s that does not carry the reference of the request it answers' % (short(i.ctx.fn.name), names[k]), callstack(i))
    elif not good:
        R.violation('C19|kind|%s' % i.ctx.fn.name, i.loc(), '%s makes a %s for a request that is %s' % (short(i.ctx.fn.name), names[k], names.get(w, 'of a kind not established')), callstack(i))

def at_response(P, R, r, fl, i, facts, AN, names):
    owner = i.a[0][1]
    if not fl.mine(owner): return
    R.count('responses')
    a = fl.made(i.a[1], facts)
    R.ob((i.ctx.fn.key, i.n, a[1:] if a else None), 'response set at %s' % i.loc())
    for X in fl.response_of(i.a[1], facts):
        for q in facts.s:
            if q[0] != 'asked' or q[1] != X or q[2] not in AN: continue
            got = ('f', ('f', ('c', GDUGET, ('f', X, 'm_response_gdu')), 'u'), 'z3950')
            w = facts.value(('f', got, 'which'))
            R.count('forwarded'); R.ob((i.ctx.fn.key, i.n, 'forward', q[2:], w), 'what a request of the proxy\'s own was answered, passed on at %s' % i.loc())
            if w not in (None, AN[q[2]]) or (w is None and ('tested', X) in facts.s): continue
            if q[3] == 0 and ('given', X) not in facts.s:
                R.violation('C19|forward|%s' % i.ctx.fn.name, i.loc(), '%s answers with what it got for a %s of its own that does not carry the reference of the request' % (short(i.ctx.fn.name), names[q[2]]), callstack(i))
    if ('stored', i.a[1]) in facts.s or (i.a[1][0] == 'f' and i.a[1][2] in fl.keep):
        R.violation('C19|stored|%s' % i.ctx.fn.name, i.loc(), '%s answers with a message kept from another request and does not give it the reference of this one' % short(i.ctx.fn.name), callstack(i))
    if a is None: return
    if not a[2] and a[1] in names and names[a[1]].endswith('Response'):
        R.violation('C19|ref|%s' % i.ctx.fn.name, i.loc(), '%s answers with a %s that does not carry the reference of the request' % (short(i.ctx.fn.name), names[a[1]]), callstack(i))

def table(P, R, K):
    """where the reference of a message is kept: for every kind that has one, in that kind's own structure"""
    U = [union_of(f['t']) for f in P.recs['Z_APDU']['fields'] if f['n'] == 'u'][0]
    want = {}
    for m, v in K.items():
        t = U['types'][m].rstrip(' *')
        if any(x['n'] == 'referenceId' for x in P.recs.get(t, {'fields': ()})['fields']): want[v] = m
    for k, f in sorted(refs(P).items()):
        R.functions.add(k)
        a = [p for p in f.params if is_apdu(p['t'])][0]
        A = ('v', f.tu, a['d'], 0, a['n'])
        fl = Flow(graph(P, f)).run()
        got = set()
        for i in fl.g.instrs:
            if i.op not in ('ret', 'assign', 'decl') or i.a[1] is None: continue
            for x in allterms(i.a[1]):
                if x[0] != 'addr' or x[1][0] != 'f' or x[1][2] != 'referenceId': continue
                for ts, facts in fl.at(i):
                    w = facts.value(('f', A, 'which'))
                    for y in facts.alias(x[1][1]) + [x[1][1]]:
                        if y[0] == 'f' and y[1] == ('f', A, 'u') and w is not None:
                            R.count('kinds'); got.add(w)
                            R.ob((k, w), '%s: the reference of a %s' % (short(f.name), want.get(w)))
                            if K.get(y[2]) != w:
                                R.violation('C19|table|%s|%s' % (f.name, want.get(w, w)), i.loc(), '%s takes the reference of a %s from the structure of a %s' % (short(f.name), want.get(w, w), y[2]))
        for w in sorted(set(want) - got):
            if got: R.violation('C19|table|%s|%s' % (f.name, want[w]), f.loc(), '%s finds no reference in a %s, which has one' % (short(f.name), want[w]))

def transfer(P, R, k, f, by):
    """decide which of the two messages is the target and that it gets a copy of the other's reference"""
    g = graph(P, f, opaque=ref_of(P))
    best = None
    idx = sorted(by)
    for d in idx:
        for s in idx:
            if s == d: continue
            V = [('v', f.tu, f.params[x]['d'], 0, f.params[x]['n']) for x in (s, d)]
            fl = Copies(g, V[0], V[1]).run()
            st = fl.at(g.exitnode)
            if any(ts == 'c' for ts, facts in st) or (best is None and any(ts == '?' for ts, facts in st)): best = (s, d, fl, st, V[0])
    if best is None: return {}
    s, d, fl, st, src = best
    R.functions.add(k)
    for ts, facts in st:
        ok = ts in ('c', 'n')
        R.ob((k, 'transfer', ts), '%s: %s' % (short(f.name), 'copied' if ts == 'c' else 'nothing to copy'))
        if not ok: R.violation('C19|transfer|%s' % f.name, f.loc(), '%s leaves the reference behind on some path' % short(f.name), fl.path(g.exitnode, ts))
    return {k: (s, d)}
