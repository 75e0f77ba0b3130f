"""C22: whatever is read has been set: members of new objects, raw memory made into message parts, local variables."""
from mp.common import *
from mp.report import Result
TECHNIQUE = 'path-sensitive definite-assignment analysis of members, raw allocations and local variables over inlined flow graphs'

ALLOC = ('odr_malloc', 'nmem_malloc', 'xmalloc', 'malloc', 'xmalloc_f', 'nmem_malloc_f')

def scalars(P, c, depth=0):
    """paths of the members of c that nothing sets by itself"""
    r = P.recs.get(c); out = []
    if r is None: return out
    for f in r['fields']:
        if f.get('init'): continue
        if f.get('scalar') or '(unnamed union' in f['t']: out.append((f['n'],))
        elif not is_ref(f['t']) and depth < 3 and strip_t(f['t']) in P.recs and not user_ctor(P, strip_t(f['t'])):
            out += [(f['n'],) + x for x in scalars(P, strip_t(f['t']), depth + 1)]
    return out

def user_ctor(P, c):
    return [m for m in P.methods_of.get(c, []) if m.raw['ctor'] and m.blocks]

def const_pointee(pt):
    """a parameter type through which nothing can be written"""
    pt = pt.strip()
    if pt.endswith(('*', '&')):
        x = pt[:-1].strip()
        return (x.startswith('const ') and '*' not in x) or x.endswith('const')
    return True

class Fill(Flow):
    """ts = (members still unset or None while there is no object, names of the object, others can see it)"""
    def __init__(self, g, is_new, paths, base=None):
        Flow.__init__(self, g)
        self.is_new = is_new; self.paths = frozenset(paths); self.base0 = base; self.handed = []
    def start(self):
        return (self.paths, frozenset([self.base0]), True) if self.base0 else (None, frozenset(), False)
    def rel(self, l, names):
        """path of l below the object, or None"""
        p = []
        while True:
            if l in names: return tuple(reversed(p))
            if l[0] == 'f': p.append(l[2]); l = l[1]
            elif l[0] == 'd' and l[1] in names: return tuple(reversed(p))
            elif l[0] == 'x' and l[2] == I0 and l[1] in names: l = l[1]
            else: return None
    def fill(self, un, p, r=None):
        n = frozenset(u for u in un if not (u[:len(p)] == p or p[:len(u)] == u))
        if r == I0 and p:
            # the number of elements of a list that is not there
            n = frozenset(u for u in n if not (u[:-1] == p[:-1] and u[-1].startswith('num_')))
        return n
    def private(self, t):
        r = root_of(t)
        if r[0] == 'v':
            v = self.g.ctxs[r[3]].fn.varinfo.get(r[2])
            return not (r[3] == 0 and any(p['d'] == r[2] for p in self.g.root.params)) and not (v and v.get('st'))
        return r[0] == 't' or (r[0] == 'r' and r[1] != 0)
    def step(self, i, ts, facts):
        un, names, esc = ts
        if self.is_new(i):
            yield (self.paths, frozenset([i.a[0] if i.op == 'decl' else ('t', i.ctx.id, i.n)]), False), facts; return
        if un is None: yield ts, facts; return
        if i.op in ('assign', 'decl', 'init', 'ret'):
            l, r = i.a
            if l is not None:
                rs = [r] + facts.alias(r) if r is not None else []
                same = any(x in names for x in rs)
                holders = frozenset(root_of(x) for x in names)
                if r is not None and not self.private(l) and any(x in holders for x in rs): esc = True
                p = None if l in names and l[0] != 't' else self.rel(l, names)
                if p is None and l[0] == 'f':
                    for x in facts.alias(l[1]):
                        p = self.rel(('f', x, l[2]), names)
                        if p is not None: break
                if p is not None and (p or l[0] == 'd' or l[0] == 't'): un = self.fill(un, p, r)
                if not same: names = frozenset(x for x in names if not contains(x, l))
                if same and l[0] in ('v', 'f', 'x', 'd', 'r', 'g'):
                    names = names | {l}
                    if not self.private(l): esc = True
        elif i.op == 'delete':
            if i.a in names or any(x in names for x in facts.alias(i.a)): yield (None, frozenset(), False), facts; return
        elif i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            pts = i.node.get('pt', [])
            for k, a in enumerate(args):
                t = a[1] if a[0] == 'addr' else a
                if not isinstance(t, tuple): continue
                pt = pts[k] if k < len(pts) else ''
                al = [t] + facts.alias(t)
                if any(x in names for x in al) or (t[0] == 'd' and t[1] in names):
                    if un: self.handed.append((i, un))
                    if '*' in pt and not const_pointee(pt) and not i.node.get('cc') and not fn.startswith(('std::', 'boost::')): un = frozenset()
                    if not (i.node.get('k') == 'ctor' and is_smart(i.node.get('t', ''))): esc = True
                else:
                    if any(x[0] not in 'is' and contains(y, x) for x in al for y in names): esc = True
                    p = self.rel(t, names)
                    if p and (a[0] == 'addr' or pt.endswith('&')) and not const_pointee(pt): un = self.fill(un, p)
            if ob is not None and un:
                p = self.rel(ob, names)
                if i.node.get('op') in ASSIGN_OPS and p is not None and (p or ob[0] == 'd'): un = self.fill(un, p)
        yield (un, names, esc), facts

def dot(p): return '.'.join(p)

def never_read(P, c, name):
    """only ever stored into"""
    for f in P.fns.values():
        par = None
        for n, nd in enumerate(f.nodes):
            if nd.get('k') != 'mem' or nd.get('n') != name or nd.get('cls') != c: continue
            par = par or f.parent_map()
            cur = n; ps = par.get(cur, [])
            while ps and f.nodes[ps[0]].get('k') in ('cast', 'idx') and f.nodes[ps[0]]['c'][0] == cur: cur = ps[0]; ps = par.get(cur, [])
            if not (ps and f.nodes[ps[0]].get('k') == 'bin' and f.nodes[ps[0]]['op'] == '=' and f.nodes[ps[0]]['c'][0] == cur): return False
    return True

def set_before_use(P, c, p):
    """a method that does nothing but set it is called when the filter is started up, before objects of the class are used"""
    for m in P.methods_of.get(c, []):
        if m.raw['ctor'] or m.raw['dtor'] or not m.blocks: continue
        if not any(nd.get('k') == 'mem' and nd.get('n') == p[0] for nd in m.nodes): continue
        fs = [x for x, n in m.callers]
        if not fs or not all(any(o.endswith(('filter::Base::process', 'filter::Base::start')) for o in x.raw.get('overn', [])) for x in fs): continue
        g = graph(P, m); fl = Fill(g, lambda i: False, [p], ('this', 0)).run()
        if all(not ts[0] for ts, f in fl.at(g.exitnode)): return True
    return False

def guarded(P, R, c, m, p):
    """every look at the member is made where another member, empty after construction, is known not to be,
    and whoever fills that other member fills this one too"""
    if len(p) != 1: return False
    cand = None
    for f in P.fns.values():
        if not f.blocks or f.raw.get('lambda'): continue
        ns = [n for n, nd in enumerate(f.nodes) if nd.get('k') == 'mem' and nd.get('n') == p[0] and nd.get('cls') == c]
        if not ns: continue
        par = f.parent_map()
        rd = [n for n in ns if not any(f.nodes[x].get('k') == 'bin' and f.nodes[x]['op'] == '=' and f.nodes[x]['c'][0] == n for x in par.get(n, []))]
        g = graph(P, f); fl = None
        sets = [i.a[0] for i in g.instrs if i.op == 'assign' and i.a[0][0] == 'f' and i.a[0][2] == p[0]]
        for i in g.instrs:
            if i.op != 'acc' or i.ctx.fn is not f or i.ctx.parent is not None or i.n not in rd: continue
            if i.a in sets: 
                # filled in the same function: judged below like any other writer
                continue
            if fl is None: fl = Flow(g).run()
            for ts, facts in fl.at(i):
                h = set(x[2] for a in facts.s if a[0] == 'ne' and a[2] == 0 for x in [a[1]] if x[0] == 'f' and x[1] == i.a[1] and x[2] != p[0])
                cand = h if cand is None else cand & h
    for G in sorted(cand or ()):
        g = graph(P, m); z = Flow(g).run()
        if not all(facts.isnull(('f', ('this', 0), G)) for ts, facts in z.at(g.exitnode)): continue
        ok = True
        for f in P.fns.values():
            w = [nd for nd in f.nodes if nd.get('k') == 'bin' and nd['op'] == '=' and f.nodes[nd['c'][0]].get('k') == 'mem' and f.nodes[nd['c'][0]]['n'] == G and f.nodes[nd['c'][0]]['cls'] == c]
            if not any(not zero(f, nd['c'][1]) for nd in w): continue
            g = graph(P, f)
            class B(Flow):
                def start(self): return (False, False)
                def step(self, i, ts, facts):
                    if i.op == 'assign' and i.a[0][0] == 'f':
                        if i.a[0][2] == G and i.a[1] != I0: ts = (True, ts[1])
                        if i.a[0][2] == p[0]: ts = (ts[0], True)
                    yield ts, facts
            b = B(g).run()
            if any(ts[0] and not ts[1] for ts, facts in b.at(g.exitnode)): ok = False
        if ok: return True
    return False

def zero(f, n):
    nd = f.nodes[n]
    while nd.get('k') == 'cast': nd = f.nodes[nd['c'][0]]
    return nd.get('cv') == 0 or nd.get('k') in ('null', 'zero')

def left_by(P, R, c, done):
    """members of class c that construction leaves unset"""
    if c in done: return done[c]
    done[c] = {}
    paths = scalars(P, c)
    cs = [m for m in user_ctor(P, c)]
    paths = [p for p in paths if not (len(p) == 1 and never_read(P, c, p[0])) and not set_before_use(P, c, p)]
    if not paths: return done[c]
    if not cs:
        done[c] = {p: None for p in paths}; return done[c]
    for m in cs:
        if len(m.params) == 1 and is_ref(m.params[0]['t']) and strip_t(m.params[0]['t']) == c and not m.blocks: continue
        g = graph(P, m)
        fl = Fill(g, lambda i: False, paths, ('this', 0)).run()
        R.count('constructors'); R.functions.add(m.key)
        for ts, f in fl.at(g.exitnode):
            R.ob((m.key, ts[0]), '%s sets all %d members that need it: %s' % (short(m.name), len(paths), not ts[0]))
            for p in ts[0]:
                if p not in done[c] and guarded(P, R, c, m, p): continue
                done[c].setdefault(p, (m, fl.path(g.exitnode, ts)))
    return done[c]

def classes(P):
    return sorted(c for c, r in P.recs.items() if r['file'].startswith('/@R') and r.get('fields'))

def run(P, tier):
    R = Result('every member of every object, every part of a message made in raw memory and every local variable is set on every path before it can be read')
    R.assumptions = ['a function outside the repository that is given the address of a variable sets it', 'elements of arrays are not told apart']
    done = {}
    for c in classes(P):
        L = left_by(P, R, c, done); R.count('classes')
    made = sites(P, R, done)
    for c in sorted(done):
        for p, w in sorted(done[c].items()):
            if w is not None and c not in made:
                R.violation('C22|%s|%s|ctor' % (short(c), dot(p)), w[0].loc(), '%s does not set %s on some path' % (short(w[0].name), dot(p)), w[1])
    locals_(P, R)
    R.need('classes', 30); R.need('constructors', 20); R.need('raw', 15); R.need('local_reads', 100)
    return R

def sites(P, R, done):
    made = set()
    for f in P.fns.values():
        if not f.blocks: continue
        jobs = []
        par = f.parent_map()
        for n, nd in enumerate(f.nodes):
            k = nd.get('k')
            if k == 'new' and not nd['arr'] and strip_t(nd['at']) in done:
                c = strip_t(nd['at'])
                if not done[c]: continue
                ct = f.nodes[nd['c'][0]] if nd['c'] else {}
                if ct.get('zi') or ct.get('cc') or ct.get('k') not in ('ctor',): continue
                jobs.append((n, 'new', c, list(done[c]), nd.get('l')))
            elif k == 'decl':
                for v in nd['vars']:
                    c = v['t']
                    if c in done and done[c] and v['init'] >= 0:
                        ct = f.nodes[v['init']]
                        if ct.get('k') == 'ctor' and not ct.get('zi') and not ct.get('cc'): jobs.append((n, 'decl', c, list(done[c]), v))
            elif k == 'call' and nd.get('fn') in ALLOC and nd.get('c'):
                sz = f.nodes[nd['c'][-1]]
                ps = [f.nodes[x] for x in par.get(n, [])]
                cast = [x for x in ps if x.get('k') == 'cast']
                if not cast or 'cv' not in sz: continue
                c = strip_t(cast[0]['t'])
                if not c.endswith('*'): continue
                c = strip_t(c[:-1])
                paths = scalars(P, c)
                if paths: jobs.append((n, 'raw', c, paths, nd.get('l')))
        for n, kind, c, paths, x in jobs:
            made.add(c); site(P, R, f, f, n, kind, c, paths, x, done)
    return made

def site(P, R, f, r, n, kind, c, paths, x, done):
    g = graph(P, r)
    R.functions.add(r.key); R.count('raw' if kind == 'raw' else 'creations')
    if kind == 'decl':
        def is_new(i): return i.op == 'decl' and i.n == n and i.ctx.fn is f and i.node is x
    else:
        def is_new(i): return i.op == ('new' if kind == 'new' else 'call') and i.n == n and i.ctx.fn is f
    fl = Fill(g, is_new, paths).run()
    line = x['l'] if isinstance(x, dict) else x
    if kind != 'decl':
        for ts, facts in fl.at(g.exitnode):
            if ts[0] is None: continue
            if not ts[2]: continue
            R.ob((f.key, n, 'exit', ts[0]), '%s at %s is complete at the end of %s: %s' % (short(c), f.loc(line), short(r.name), not ts[0]))
            for p in ts[0]:
                R.violation('C22|%s|%s|%s' % (short(c), dot(p), short(f.name)), f.loc(line), '%s makes a %s and does not set its member %s on some path' % (short(f.name), short(c), dot(p)), fl.path(g.exitnode, ts))
    seen = set()
    for i, un in fl.handed:
        if kind != 'decl': continue
        R.ob((f.key, n, 'use', i.n, un), '')
        for p in un:
            if (p, i.n) in seen: continue
            seen.add((p, i.n))
            R.violation('C22|%s|%s|%s' % (short(c), dot(p), short(f.name)), i.loc(), '%s hands on a %s whose member %s is not set on some path' % (short(f.name), short(c), dot(p)), callstack(i))

class Locals(Flow):
    """fact ('set', variable): assigned on every path"""
    def base(self, i, facts):
        f = Flow.base(self, i, facts)
        if f is None: return None
        if i.op in ('assign', 'decl', 'ret') and i.a[0] is not None and i.a[0][0] == 'v':
            if i.a[1] is not None: f = f.add([('set', i.a[0])])
            else: f = Facts(frozenset(a for a in f.s if not (a[0] == 'set' and a[1] == i.a[0])))
        elif i.op in ('assign',) and root_of(i.a[0])[0] == 'v': f = f.add([('set', root_of(i.a[0]))])
        elif i.op == 'call' and i.ctx.calls.get(i.n) is None:
            for t in self.given(i): f = f.add([('set', t)])
        return f
    def given(self, i):
        pts = i.node.get('pt', [])
        for k, a in enumerate(i.a[2]):
            pt = pts[k] if k < len(pts) else ''
            if a[0] == 'addr' and a[1][0] == 'v' and not const_pointee(pt): yield a[1]
            elif a[0] == 'v' and pt.endswith('&') and not const_pointee(pt): yield a
        if i.node.get('k') == 'call' and i.a[1] is not None and i.a[1][0] == 'v': yield i.a[1]

def reads(f, n):
    """whether node n, a mention of a variable, reads its value"""
    par = f.parent_map()
    cur = n
    for _ in range(6):
        ps = par.get(cur, [])
        if not ps: return False
        p = ps[0]; nd = f.nodes[p]; k = nd.get('k')
        if k == 'cast': cur = p; continue
        if k == 'bin' and nd['op'] == '=' and nd['c'][0] == cur: return False
        if k == 'bin' and nd['op'] == ',' and nd['c'][0] == cur: return False
        if k == 'un' and nd['op'] == '&': return False
        if k == 'mem': return '*' in f.nodes[n].get('t', '')
        if k in ('call', 'ctor'):
            if cur in nd.get('c', []):
                j = nd['c'].index(cur); pts = nd.get('pt', [])
                pt = pts[j] if j < len(pts) else ''
                if pt.endswith('&') and not const_pointee(pt): return False
            elif nd.get('obj') == cur: return False
            return True
        if k == 'decl':
            for v in nd['vars']:
                if v['init'] == cur and is_ref(v['t']): return False
            return True
        if k == 'lambda': return False
        return True
    return True

def locals_(P, R):
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.blocks or f.raw.get('lambda'): continue
        if not f.file.startswith('/@R'): continue
        unset = {}
        for nd in f.nodes:
            if nd.get('k') == 'decl':
                for v in nd['vars']:
                    if v['init'] < 0 and not v.get('st') and (scalar_t(v['t']) or is_ptr(v['t'])) and '[' not in v['t']: unset[v['d']] = v
        if not unset: continue
        g = graph(P, f, uses=True)
        fl = Locals(g).run()
        R.functions.add(f.key)
        for i in g.instrs:
            if i.op != 'use' or i.ctx.fn is not f or i.ctx.parent is not None: continue
            nd = i.node
            if nd['d'] not in unset or not reads(f, i.n): continue
            for ts, facts in fl.at(i):
                R.count('local_reads')
                ok = ('set', i.a) in facts.s
                R.ob((f.key, i.n, ok), '%s read at %s is set' % (nd['n'], i.loc()))
                if not ok:
                    R.violation('C22|local|%s|%s' % (short(f.name), nd['n']), i.loc(), '%s reads %s, which is not set on some path' % (short(f.name), nd['n']), fl.path(i, ts))
                    break
