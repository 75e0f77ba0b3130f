"""C12: packages visit exactly the filters of their route, in configured order; positions are private; start/stop reach all filters."""
from mp.common import *
from mp.val import *
from mp.report import Result
TECHNIQUE = 'value-numbering dataflow: decision tables of every route position, router and package operation; traversal and insertion-order rules for the route lists; route-before-move typestate for derived packages'
PKG = 'metaproxy_1::Package'; BASE = 'metaproxy_1::filter::Base'; POS = 'metaproxy_1::RoutePos'; ROUTER = 'metaproxy_1::Router'
T = ('this', 0)

def vtable(P, f):
    g = graph(P, f, nobind=True)
    return g, ValFlow(g).run()

def over(P, cls, name):
    return [f for f in P.fns.values() if f.short == name and f.cls and f.cls != cls and derives(P, f.cls, cls)]

def succ_of(v):
    """X if v is X advanced by one"""
    if v is not None and v[0] == 'b' and v[1] == '+' and v[3] == ('i', 1): return v[2]
    return None

def deref(v, X):
    """v is the element at X (as pointer)"""
    while v[0] == 'c' and callfn(v) == 'get': v = v[2]
    return v == ('d', X) or v == X       # an iterator stands for its element where only the element fits

def is_end(c, X):
    """condition compares X with the end of something: (container, polarity)"""
    a, p = c
    if a[0] == '==' and X in a[1:]:
        o = a[2] if a[1] == X else a[1]
        if o[0] == 'c' and callfn(o) in ('end', 'cend'): return o[2], p
    return None

def param(f, k): return ('v', f.tu, f.params[k]['d'], 0, f.params[k]['n'])

def named(s, rt):
    """whether the route name given is non-empty: True / False / None"""
    for (a, p) in s.conds:
        if a == ('==', rt, I0) and p: return False
        if a[0] == '==' and a[2] == I0 and a[1] in (('d', rt), ('x', rt, I0)): return not p
        if a == ('empty', rt): return not p
    for (a, p) in s.conds:
        if a == ('==', rt, I0): return True if not p else False
    return None

def run(P, tier):
    R = Result('every RoutePos::move returns the element at the stored iterator and advances it once, or 0 at the end of the same list; named routes are looked up and entered at their first element; clone and createpos set every member; Package::move processes exactly the filter its position yields; start/stop traverse whole lists; route lists only grow at the end, in document order')
    R.assumptions = ['a <filter> without refid and type inside a route is allowed and skipped (as documented behaviour of the current code)']
    def V(k, f, msg, detail=()):
        R.violation('C12|' + k, f.loc(), msg, list(detail))
    def conds(s): return [sc(c) for c in sorted(s.conds, key=repr)]
    # ---- positions
    for f in over(P, POS, 'move'):
        g, v = vtable(P, f)
        R.functions.add(f.key); R.count('move')
        rec = P.recs[f.cls]
        its = [x['n'] for x in rec['fields'] if 'iterator<' in x['t'] or '_iterator' in x['t']]
        rt = param(f, 0)
        uses_name = any(rt in allterms(x) for ts, s, r in v.exits() for (a, p) in s.conds for x in a[1:] if isinstance(x, tuple))
        for ts, s, r in v.exits():
            R.ob(('move', f.key, frozenset(s.conds)), 'move of %s: %s -> %s' % (short(f.cls), ' and '.join(conds(s)), sv(r)))
            R.count('move_cases')
            final = {n: s.env.get(('f', T, n), ('f', T, n)) for n in its}
            if r == I0:
                # allowed: at the end of the list, or unknown route
                ok = False
                for n, x in final.items():
                    for c in s.conds:
                        e = is_end(c, x)
                        if e and e[1]: ok = True
                if not ok: V('move-null|' + f.cls, f, 'a step ends processing although the route has not come to its end', conds(s))
                if any(succ_of(x) is not None for x in final.values()): V('move-adv|' + f.cls, f, 'a step that yields no filter still moves the position', conds(s))
                continue
            X = [succ_of(x) for x in final.values() if succ_of(x) is not None]
            if len(X) != 1:
                V('move-step|' + f.cls, f, 'a step does not advance the position by exactly one filter', conds(s)); continue
            X = X[0]
            if not deref(r, X):
                V('move-elem|' + f.cls, f, 'a step yields a filter other than the one the position stands at (%s)' % sv(r), conds(s)); continue
            e = [is_end(c, X) for c in s.conds]
            e = [x for x in e if x]
            if not any(not p for c, p in e):
                V('move-end|' + f.cls, f, 'a step does not look for the end of the route before it takes the next filter', conds(s)); continue
            lst = [c for c, p in e if not p][0]
            others = {n: x for n, x in final.items() if succ_of(x) is None}
            nm = named(s, rt)
            if others:      # several routes
                ri, rv = sorted(others.items())[0]
                if lst[0] != 'f' or not any(s2 == rv for s2 in subterms(lst)):
                    V('move-list|' + f.cls, f, 'the end of another route is taken for the end of the current one', conds(s))
                if nm is True:
                    if not (rv[0] == 'c' and callfn(rv) == 'find' and rv[3] == rt): V('move-name|' + f.cls, f, 'a step to a named route does not look that route up', conds(s))
                    elif not (X[0] == 'c' and callfn(X) in ('begin', 'cbegin') and X[2] == lst): V('move-begin|' + f.cls, f, 'a named route is not entered at its first filter', conds(s))
                    elif not any((is_end(c, rv) or (0, True))[1] is False for c in s.conds): V('move-unknown|' + f.cls, f, 'a step to an unknown route is not detected', conds(s))
                elif nm is False:
                    if X not in [('f', T, n) for n in its] or rv != ('f', T, ri): V('move-stay|' + f.cls, f, 'a plain step leaves the current place in the route', conds(s))
                else: V('move-anon|' + f.cls, f, 'a step does not tell a named route from a plain step', conds(s))
            else:
                if X not in [('f', T, n) for n in its]: V('move-stay|' + f.cls, f, 'a step leaves the current place in the route', conds(s))
                if lst[0] == 'c': V('move-list|' + f.cls, f, 'the end of another list is taken for the end of the route', conds(s))
    R.need('move', 2); R.need('move_cases', 4)
    for f in over(P, POS, 'clone'):
        g, v = vtable(P, f)
        R.functions.add(f.key); R.count('clone')
        for ts, s, r in v.exits():
            if r is None or r[0] != 'new': 
                V('clone-new|' + f.cls, f, 'cloning a position does not make a new one'); continue
            ctor_copy = s.env.get(('d', r))
            for x in P.recs[f.cls]['fields']:
                R.ob(('clone', f.key, x['n']), 'clone of %s copies %s' % (short(f.cls), x['n']))
                w = s.env.get(('f', r, x['n']))
                if w != ('f', T, x['n']) and not copied(g, v, s, r):
                    V('clone|%s|%s' % (f.cls, x['n']), f, 'a cloned position does not continue where the original stands (%s is %s)' % (x['n'], sv(w) if w else 'unset'))
    R.need('clone', 2)
    # ---- routers
    for f in over(P, ROUTER, 'createpos'):
        g, v = vtable(P, f)
        R.functions.add(f.key); R.count('createpos')
        for ts, s, r in v.exits():
            R.ob(('createpos', f.key, frozenset(s.conds)), 'createpos of %s' % short(f.cls))
            if r is None: continue
            if callfn(r) == 'createpos': continue
            if r[0] == 'call':
                if not r[3].endswith('::createpos'): V('create|' + f.cls, f, 'the position given out does not come from the route')
                continue
            if r == I0:
                if not any(c[0] == '==' and p and any(callfn(x) in ('end', 'cend') for x in c[1:]) for c, p in s.conds): V('create-null|' + f.cls, f, 'no position is given out although the route exists', conds(s))
                continue
            if r[0] != 'new': V('create-new|' + f.cls, f, 'a position given out is shared'); continue
            cl = [x['cls'] for x in [g.ctxs[r[1]].fn.nodes[r[2]]] if x.get('cls')]
            pc = pos_class(P, g, r)
            if pc is None: continue
            for x in P.recs[pc]['fields']:
                w = s.env.get(('f', r, x['n']))
                R.ob(('create', f.key, x['n']), 'createpos of %s sets %s' % (short(f.cls), x['n']))
                if w is None or w[0] == 'undef': V('create|%s|%s' % (f.cls, x['n']), f, 'a new position is handed out with %s unset' % x['n'], conds(s)); continue
                if 'iterator<' in x['t'] or '_iterator' in x['t']:
                    if callfn(w) in ('begin', 'cbegin'):
                        if w[2][0] == 'f' and 'oute' in w[2][2]: V('create|%s|%s' % (f.cls, x['n']), f, 'a new position starts in a route other than the start route', conds(s))
                    elif callfn(w) == 'find':
                        if not (w[3][0] == 'f' and 'start' in w[3][2]): V('create|%s|%s' % (f.cls, x['n']), f, 'a new position does not start in the start route (%s)' % sv(w), conds(s))
                    else: V('create|%s|%s' % (f.cls, x['n']), f, 'a new position does not stand at the first filter (%s)' % sv(w), conds(s))
            itn = [x['n'] for x in P.recs[pc]['fields'] if 'iterator<' in x['t'] or '_iterator' in x['t']]
            if len(itn) > 1 and not any(callfn(s.env.get(('f', r, n), ('undef',))) == 'find' for n in itn): V('create-route|' + f.cls, f, 'a new position is not put in the start route', conds(s))
            ls = [w[2] for n, w in ((x['n'], s.env.get(('f', r, x['n']), ('undef',))) for x in P.recs[pc]['fields']) if callfn(w) in ('begin', 'cbegin')]
            fs = [w for n, w in ((x['n'], s.env.get(('f', r, x['n']), ('undef',))) for x in P.recs[pc]['fields']) if callfn(w) == 'find']
            if fs and ls and not any(fs[0] == y for y in subterms(ls[0])): V('create-route|' + f.cls, f, 'a new position stands in a list that is not its route', conds(s))
    R.need('createpos', 2)
    package_ops(P, R, V, conds)
    for name in ('start', 'stop'):
        for f in over(P, ROUTER, name): life(P, R, V, f, name)
    R.need('lifecycle', 4)
    lists(P, R, V)
    derived(P, R, V)
    return R

def pos_class(P, g, r):
    nd = g.ctxs[r[1]].fn.nodes[r[2]]
    t = strip_t(nd.get('t', '')).rstrip('*').strip()
    return t if t in P.recs else None

def copied(g, v, s, r):
    """the new object was made by copying *this as a whole"""
    nd = g.ctxs[r[1]].fn.nodes[r[2]]
    for i in g.instrs:
        if i.op == 'call' and i.node['k'] == 'ctor' and i.node.get('cc') and i.a[2] and i.a[2][0] in (('d', T), T): return True
    return False

class MoveFlow(ValFlow):
    """counts what a package step does: filters processed and positions asked"""
    def start(self): return ((), ())
    def event(self, i, ts, st):
        pr, mv = ts
        if i.op == 'call' and i.ctx.calls.get(i.n) is None:
            if i.a[0].endswith('filter::Base::process'): pr = pr + ((st.val(i.a[1]), st.val(i.a[2][0]) if i.a[2] else None),)
            elif i.a[0].endswith('RoutePos::move'): mv = mv + ((i.ctx.id, i.n, st.val(i.a[2][0]) if i.a[2] else I0),)
            elif i.a[0].endswith(PKG + '::move'): mv = mv + (('pkg',),)
        yield (pr[-3:], mv[-3:])

def package_ops(P, R, V, conds):
    fs = P.methods_of[PKG]
    posf = [x['n'] for x in P.recs[PKG]['fields'] if 'RoutePos' in x['t']]
    if not posf: raise AnalysisError('no route position in package')
    L = ('f', T, posf[0])
    for f in fs:
        R.functions.add(f.key)
        g = graph(P, f, nobind=True)
        if f.short == 'move':
            v = MoveFlow(g).run(); R.count('package_move')
            for ts, s, r in v.exits():
                pr, mv = ts
                R.ob(('pkgmove', f.key, frozenset(s.conds)), 'Package::move: %s' % ' and '.join(conds(s)))
                nullpos = any(c[0] == '==' and L in c[1:] and I0 in c[1:] and p for c, p in s.conds)
                if nullpos:
                    if pr or mv: V('pkg-null', f, 'a package without a route is processed', conds(s))
                    continue
                if len(mv) != 1: V('pkg-step|' + f.key, f, 'moving a package takes %d steps in the route' % len(mv), conds(s)); continue
                a = mv[0][2]
                if f.params:
                    rt = param(f, 0)
                    nm = named(s, rt)
                    src = strip_str(a)
                    if src == rt: pass
                    elif a == I0 and nm is False: pass
                    else: V('pkg-name|' + f.key, f, 'moving a package to a named route goes elsewhere (%s)' % sv(a), conds(s))
                elif a != I0: V('pkg-name|' + f.key, f, 'moving a package on leaves its route', conds(s))
                want = ('call', mv[0][0], mv[0][1])
                got = [x for x in pr if x[0][:3] == want]
                isnull = any(c[0] == '==' and p and I0 in c[1:] and any(x[:3] == want for x in c[1:]) for c, p in s.conds)
                if isnull:
                    if pr: V('pkg-end|' + f.key, f, 'a package is processed by a filter behind the end of its route', conds(s))
                elif len(pr) != 1 or len(got) != 1: V('pkg-proc|' + f.key, f, 'a package is handed to its next filter %d times instead of once' % len(pr), conds(s))
                elif got[0][1] not in (('d', T), T): V('pkg-arg|' + f.key, f, 'the next filter gets another package', conds(s))
                L2 = s.env.get(L)
                if L2 is not None: V('pkg-pos|' + f.key, f, 'moving a package replaces its position', conds(s))
            continue
        v = ValFlow(g).run()
        for ts, s, r in v.exits():
            w = s.env.get(L)
            R.ob(('pkg', f.key, frozenset(s.conds)))
            if f.short == 'copy_route' or f.short == 'copy_filter':
                src = param(f, 0)
                R.count('copy_route')
                selfc = any(c[0] == '==' and p and T in c[1:] for c, p in s.conds)
                nullsrc = any(c == ('==', ('f', src, posf[0]), I0) and p for c, p in s.conds)
                if selfc: continue
                if nullsrc:
                    if w not in (I0, ('f', src, posf[0])): V('copy|' + f.short, f, 'copying a package without a route leaves the old route in place', conds(s))
                elif w is None or w[0] != 'call' or not w[3].endswith('::clone') or w[4] != ('f', src, posf[0]):
                    V('copy|' + f.short, f, 'a derived package does not continue at a position of its own cloned from the original (%s)' % (sv(w) if w else 'unset'), conds(s))
                if f.short == 'copy_filter':
                    for x in P.recs[PKG]['fields']:
                        if 'ogger' in x['t'] and s.env.get(('f', T, x['n'])) != ('f', src, x['n']): V('copylog', f, 'a derived package does not keep the log of the original', conds(s))
            elif f.short == 'router':
                R.count('router')
                src = param(f, 0)
                if w is None or not (callfn(w) == 'createpos' and w[2] == src or w[0] == 'call' and w[3].endswith('::createpos') and w[4] == src): V('router', f, 'a package is not put at the start of the router it is given', conds(s))
            elif f.raw['ctor']:
                if w != I0 and not (f.params and PKG in f.params[0]['t']): V('ctor', f, 'a new package starts with a route position it was not given')
            elif f.raw['dtor']: pass
            elif w is not None: V('pkgpos|' + f.name, f, '%s changes the route position of a package' % f.short)
    R.need('package_move', 2); R.need('copy_route', 2); R.need('router', 1)
    # nobody else steps or processes
    for f in P.fns.values():
        for n in f.nodes:
            if n.get('k') != 'call': continue
            fn = n.get('fn', '')
            if fn.endswith(('RoutePos::move',)) and f.cls != PKG:
                V('foreign-move|' + f.name, f, '%s moves a route position directly' % short(f.name), [f.loc(n.get('l'))])
            if fn == BASE + '::process' and f.cls != PKG and not f.file.split('/')[-1].startswith('test_'):
                V('foreign-proc|' + f.name, f, '%s hands a package to a filter outside its route' % short(f.name), [f.loc(n.get('l'))])

class LifeFlow(ValFlow):
    """ts: start/stop calls since the innermost loop head that contains one"""
    def __init__(self, g, name):
        self.name = name
        ValFlow.__init__(self, g)
        self.callers = set(i.id for i in g.instrs if self.iscall(i))
    def iscall(self, i):
        return i.op == 'call' and i.ctx.calls.get(i.n) is None and i.a[0].split('::')[-1] == self.name and i.a[1] is not None and ('filter' in i.a[0] or 'outer' in i.a[0])
    def start(self): return ()
    def at_head(self, h, ts, back):
        return () if self.heads[h] & self.callers else ts
    def event(self, i, ts, st):
        if self.iscall(i):
            ts = ts + ((st.val(i.a[1]), tuple(st.val(a) for a in i.a[2])),)
        yield ts[-3:]

def life(P, R, V, f, name):
    """start/stop: reaches every element of every list exactly once per traversal"""
    g = graph(P, f, nobind=True)
    v = LifeFlow(g, name).run()
    R.functions.add(f.key); R.count('lifecycle')
    R.ob(('life', f.key), '%s reaches every filter' % short(f.name))
    if not v.callers: V('life|%s' % f.name, f, '%s does not reach any filter' % short(f.name)); return
    inl = [h for h in v.heads if v.heads[h] & v.callers]
    if not inl:
        for ts, s, r in v.exits():      # delegation
            if len(ts) != 1: V('life|%s' % f.name, f, '%s is not passed on once on every path' % short(f.name), [sc(c) for c in s.conds])
            elif name == 'stop' and ts[0][1] != (param(f, 0),): V('lifearg|%s' % f.name, f, '%s passes on another signal' % short(f.name))
        return
    for ts, s, r in v.exits():
        pass
    for h in inl:
        R.ob(('loop', f.key, h)); R.count('traversals')
        # the traversing iterator: a phi that starts at begin() and advances by one
        it = None
        for (hh, t), ins in v.phis.items():
            if hh != h or t[0] in ('t', 'r'): continue
            me = ('phi', h, t)
            vals = set(x[1] for x in ins)
            init = [x for x in vals if not contains(x, me)]
            step = [x for x in vals if contains(x, me)]
            if any(callfn(x) in ('begin', 'cbegin') for x in init):
                it = (t, me, init, step)
                break
        if it is None: V('life-it|%s' % f.name, f, '%s does not go through its filters from the first one on' % short(f.name)); continue
        t, me, init, step = it
        if len(set(x[2] for x in init if x[0] == 'c')) != 1 or any(callfn(x) not in ('begin', 'cbegin') for x in init) or any(succ_of(x) != me for x in step):
            V('life-it|%s' % f.name, f, '%s does not advance one filter at a time' % short(f.name)); continue
        for ts, s, i in v.leaves[h]:
            if not any(is_end(c, me) and is_end(c, me)[1] and is_end(c, me)[0] == init[0][2] for c in s.conds):
                V('life-exit|%s' % f.name, f, '%s can stop before it has reached the last filter' % short(f.name), ['leaves at ' + i.loc()] + [sc(c) for c in s.conds])
        inner = [h2 for h2 in inl if h2 != h and h2 in v.heads[h]]
        for ts, s, i in v.backs[h]:
            if inner: continue
            if len(ts) != 1 or not any(deref(ts[0][0], me) or ts[0][0] == ('f', me, 'second') for _ in (0,)):
                V('life-each|%s' % f.name, f, '%s does not reach each filter exactly once' % short(f.name), ['%d calls' % len(ts)] + [sc(c) for c in s.conds])
            elif name == 'stop' and ts[0][1] != (param(f, 0),): V('lifearg|%s' % f.name, f, '%s passes on another signal' % short(f.name))
        if inner:
            # the inner loop runs over the list of the current element on every round
            for h2 in inner:
                for (hh, t2), ins in v.phis.items():
                    if hh == h2 and t2[0] not in ('t', 'r'):
                        for x in ins:
                            if callfn(x[1]) in ('begin', 'cbegin') and not contains(x[1], me): V('life-inner|%s' % f.name, f, '%s goes through the wrong list' % short(f.name))
            # every round passes the inner head: no path from head to back edge avoiding it
            for h2 in inner:
                seen = {h}; st = [g.instrs[h]]
                while st:
                    x = st.pop()
                    for y in x.succ:
                        if (x.id, y.id) in v.back and y.id == h:
                            V('life-skip|%s' % f.name, f, '%s can skip the filters of a route' % short(f.name), [x.loc()])
                        elif y.id in v.heads[h] and y.id != h2 and y.id not in seen:
                            seen.add(y.id); st.append(y)

def filter_list(t):
    return ('list<' in t or 'vector<' in t or 'deque<' in t) and BASE in t

class BuildFlow(ValFlow):
    """ts: what happened since the head of the loop over the configuration nodes"""
    def __init__(self, g, lists):
        self.lists = lists
        ValFlow.__init__(self, g)
        self.pushes = set(i.id for i in g.instrs if self.push(i))
    def push(self, i):
        return i.op == 'call' and i.ctx.calls.get(i.n) is None and i.node.get('obj') is not None and filter_list(i.ctx.fn.nodes[i.node['obj']].get('t', '')) and not i.node.get('const') and i.a[0].split('::')[-1] not in READS | {'operator[]', '~list'}
    def start(self): return ()
    def at_head(self, h, ts, back):
        return () if self.heads[h] & self.pushes else ts
    def event(self, i, ts, st):
        if i.id in self.pushes:
            ts = ts + (('push', i.a[0].split('::')[-1], st.val(i.a[2][-1]) if i.a[2] else None),)
        elif i.op == 'call' and i.a[0].endswith('::configure') and i.a[1] is not None: ts = ts + (('conf', st.val(i.a[1])),)
        elif i.op == 'call' and i.ctx.calls.get(i.n) is None and i.node.get('key') == self.g.root.key: ts = ts + (('rec', tuple(st.val(a) for a in i.a[2])),)
        yield ts[-6:]

def lists(P, R, V):
    """lists of filters only grow at the end; configuration elements are taken one by one in document order"""
    for f in P.fns.values():
        if not any(filter_list(n.get('t', '')) for n in f.nodes): continue
        if f.file.split('/')[-1].startswith('test_'): continue
        g = graph(P, f, nobind=True)
        v = BuildFlow(g, None)
        if not v.pushes: continue
        v.run()
        R.functions.add(f.key)
        for i in g.instrs:
            if i.id in v.pushes:
                m = i.a[0].split('::')[-1]
                R.ob(('grow', f.key, i.n), 'route list changed by %s at %s' % (m, i.loc())); R.count('insertions')
                at_end = m in ('insert', 'emplace') and i.a[2] and all(callfn(st.val(i.a[2][0])) in ('end', 'cend') for ts, st in v.at(i))
                if m not in ('push_back', 'emplace_back', 'reserve') and not at_end:
                    V('order|%s|%s' % (f.name, m), f, '%s does not append to the route: filters would run in another order (%s)' % (short(f.name), m), [i.loc()])
        if not f.params: continue
        outer = [h for h in v.heads if v.heads[h] & v.pushes]
        if not outer:
            # single append
            for ts, s, r in v.exits():
                n = [e for e in ts if e[0] == 'push']
                if len(n) != 1: V('append|' + f.name, f, '%s adds %d filters instead of one' % (short(f.name), len(n)), [sc(c) for c in s.conds])
                elif f.params and n[0][2] not in (('addr', param(f, 0)), param(f, 0)): V('append|' + f.name, f, '%s adds another filter than the one it is given' % short(f.name))
            continue
        h = max(outer, key=lambda h: len(v.heads[h]))
        R.count('build_loops')
        node = None
        for (hh, t), ins in v.phis.items():
            if hh == h and t[0] == 'v' and any(x[1][0] == 'call' and x[1][3].endswith('jump_to_next') for x in ins):
                node = t; me = ('phi', h, t)
                for src, val, cs in ins:
                    back = (src, h) in v.back
                    if back and not (val[0] == 'call' and val[3].endswith('jump_to_next') and val[5:6] == (me,) or val == ('f', me, 'next')):
                        V('next|' + f.name, f, '%s does not go on with the next element of the configuration (%s)' % (short(f.name), sv(val)), [sc(c) for c in cs])
        if node is None: continue
        me = ('phi', h, node)
        for ts, s, i in v.leaves[h]:
            if not any(c == ('==', me, I0) and p for c, p in s.conds):
                V('all|' + f.name, f, '%s can stop before the last element of the configuration' % short(f.name), ['leaves at ' + i.loc()] + [sc(c) for c in s.conds])
        for ts, s, i in v.backs[h]:
            pushes = [e for e in ts if e[0] == 'push']; rec = [e for e in ts if e[0] == 'rec']
            group = [p for c, p in s.conds if c[0] == '==' and c[2] == I0 and c[1][0] == 'call' and c[1][3].endswith('is_element_mp') and ('s', 'filters') in c[1]]
            if any(c[0] == '==' and c[2] == I0 and c[1][0] == 'call' and c[1][3].endswith('check_element_mp') and p for c, p in s.conds): continue   # it never says no: it throws
            grp = bool(group) and group[0] is False
            R.ob(('round', f.key, frozenset(s.conds)), 'one configuration element in %s: %s' % (short(f.name), [e[0] for e in ts])); R.count('build_rounds')
            if grp:
                if len(rec) != 1 or pushes: V('group|' + f.name, f, 'a group of filters is not taken into the route exactly once', [sc(c) for c in s.conds])
                continue
            empty = [c for c, p in s.conds if c[0] == 'empty' and p]
            if rec: V('group|' + f.name, f, 'an element that is no group is taken as a group'); continue
            if len(pushes) > 1: V('once|' + f.name, f, 'one filter element enters the route %d times' % len(pushes), [sc(c) for c in s.conds])
            elif not pushes and len(empty) < 2: V('once|' + f.name, f, 'a filter element of the route is skipped', [sc(c) for c in s.conds])
            elif pushes:
                x = pushes[0][2]
                if x is None:
                    V('once|' + f.name, f, 'what the route is made of is changed by something other than entering the filter at hand', [sc(c) for c in s.conds]); continue
                while x[0] == 'c' and callfn(x) == 'get' and x[2] is not None: x = x[2]
                if x[0] == 'f' and x[2] == 'second':
                    if not (callfn(x[1]) == 'find' and any((is_end(c, x[1]) or (0, True))[1] is False for c in s.conds)): V('ref|' + f.name, f, 'a reference to a filter is used without having been found', [sc(c) for c in s.conds])
                    elif not any(c == ('empty', x[1][3]) and not p for c, p in s.conds): V('ref|' + f.name, f, 'the filter looked up is not the one referred to', [sc(c) for c in s.conds])
                else:
                    conf = [e for e in ts if e[0] == 'conf' and e[1] == x]
                    k = ts.index(pushes[0])
                    if not conf or ts.index(conf[0]) > k: V('conf|' + f.name, f, 'a filter enters the route without having been configured', [sc(c) for c in s.conds])
                    if not (x[0] == 'call' and x[3].endswith('::create')): V('type|' + f.name, f, 'the filter that enters the route is not the one created for the element', [sc(c) for c in s.conds])
    R.need('insertions', 2); R.need('build_loops', 1); R.need('build_rounds', 3)

class DerivedFlow(Flow):
    """ts: packages of this activation that have been given a route"""
    def start(self): return frozenset()
    def step(self, i, ts, facts):
        if i.op == 'call' and i.a[1] is not None:
            fn = i.a[0]
            if fn.startswith(PKG + '::') and fn.split('::')[-1] in ('copy_filter', 'copy_route', 'router'): ts = ts | set(self.names(i.a[1], facts))
        elif i.op in ('decl', 'assign') and i.a[1] is not None and i.a[1] in ts: ts = ts | {i.a[0]}
        elif i.op == 'call' and False: pass
        yield ts, facts
    def names(self, t, facts):
        return set(facts.alias(t)) | {t, norm(('addr', t)), norm(('d', t))}

def derived(P, R, V):
    """a package made by a filter is moved only after it has been given a route; it carries the origin of the client"""
    for f in P.fns.values():
        if not any(n.get('k') == 'ctor' and n.get('cls') == PKG for n in f.nodes): continue
        if f.file.split('/')[-1].startswith('test_'): continue
        g = graph(P, f)
        fl = None
        made = []
        for i in g.instrs:
            if i.op == 'call' and i.node['k'] == 'ctor' and i.node.get('cls') == PKG and not i.node.get('cc'): made.append(i)
        if not made: continue
        names = set()
        for i in g.instrs:
            if i.op in ('decl', 'assign') and i.a[1] is not None and any(i.a[1] == m.a[3] for m in made): names.add(i.a[0])
            if i.op in ('decl', 'assign') and i.a[1] is not None and i.a[1][0] == 't' and i.a[1][2] >= 0:
                nd = g.ctxs[i.a[1][1]].fn.nodes[i.a[1][2]]
                if nd.get('k') == 'new' and PKG in nd.get('t', ''): names.add(i.a[0])
        fl = DerivedFlow(g).run()
        R.functions.add(f.key)
        for i in g.instrs:
            if i.op == 'call' and i.a[0] == PKG + '::move' and i.a[1] is not None:
                for ts, facts in fl.at(i):
                    nm = fl.names(i.a[1], facts)
                    if not (nm & names) and not (i.a[1] in names): continue
                    R.ob(('derived', f.key, i.n), 'derived package moved at %s' % i.loc()); R.count('derived_moves')
                    if not (nm & ts): V('route|%s' % f.name, f, '%s moves a package that has not been given a route on every path: nothing would process it' % short(f.name), [i.loc()])
    R.need('derived_moves', 8)
