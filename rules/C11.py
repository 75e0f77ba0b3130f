"""C11: what a configuration says is understood or refused."""
from mp.common import *
from mp.val import *
from mp.report import Result
from mp.load import REPO
import os, re
TECHNIQUE = 'value-numbering dataflow over one round of every loop that walks configuration elements or attributes; cross-check of the recognised names with the published schemas'

DESCEND = set()
ADDS = ('push_back', 'push_front', 'insert', 'emplace', 'emplace_back', 'operator[]', 'splice')
CHECKS = ('check_element_mp', 'check_element', 'check_attribute')
def contains(t, x):
    return any(s == x for s in subterms(t) if isinstance(s, tuple))

def cursor(v, h):
    """(term, kind) of the element or attribute cursor of the loop at h, from its value when it goes round"""
    for (hh, t), srcs in v.phis.items():
        if hh != h or t[0] in ('t', 'r'): continue
        ph = ('phi', h, t)
        for src, x, c in srcs:
            y = x
            if y[0] == 'f' and y[2] == 'next' and y[1] in (ph, ('d', ph)): return t, ph
            if callfn(y) in ('jump_to_next',) and contains(y, ph): return t, ph
            if y[0] == 'call' and y[3].endswith('::jump_to_next') and contains(y, ph): return t, ph
    return None, None

def cur_type(g, t):
    fn = None
    for i in g.instrs:
        if i.ctx.fn.tu == t[1]: fn = i.ctx.fn; break
    return ''

def name_of(x, ph):
    x = strip_str(x)
    return x[0] == 'f' and x[2] == 'name' and x[1] in (ph, ('d', ph))

def understood(conds, ph):
    """the names the path has matched the cursor with, or None when it has not matched any"""
    names = None
    for a, p in conds:
        if a[0] == '==' and p:
            for u, w in ((a[1], a[2]), (a[2], a[1])):
                if name_of(u, ph) and strip_str(w)[0] == 's': names = (names or set()) | {strip_str(w)[1]}
                elif name_of(u, ph) and strip_str(w)[0] != 'i': names = (names or set()) | {None}
        k = is_call(a, p)
        if k is not None and k[0] in ('is_element_mp', 'check_element_mp', 'is_element', 'check_element', 'is_attribute', 'check_attribute') and k[1] and contains(k[1][0], ph):
            l = [strip_str(x) for x in k[1][1:] if x is not None]
            names = (names or set()) | {l[-1][1] if l and l[-1][0] == 's' else None}
    return names

def is_call(a, p):
    """(short name, arguments) when the atom says a call answered true"""
    if a[0] != '==': return None
    for u, w in ((a[1], a[2]), (a[2], a[1])):
        if u[0] in ('call', 'c'):
            if (w == I0 and not p) or (w == ('i', 1) and p):
                n = (u[3] if u[0] == 'call' else u[1]).split('::')[-1]
                return n, [x for x in (u[5:] if u[0] == 'call' else u[3:])]
    return None

def no_element(conds, ph):
    for a, p in conds:
        if a[0] == '==' and not p:
            for u, w in ((a[1], a[2]), (a[2], a[1])):
                if u[0] == 'f' and u[2] == 'type' and u[1] in (ph, ('d', ph)) and w == ('i', 1): return True
        if a[0] == '==' and p:
            for u, w in ((a[1], a[2]), (a[2], a[1])):
                if u[0] == 'f' and u[2] == 'type' and u[1] in (ph, ('d', ph)) and w[0] == 'i' and w[1] != 1: return True
    return False

def ended(conds, ph):
    return any(a[0] == '==' and p and ph in (a[1], a[2]) and I0 in (a[1], a[2]) for a, p in conds)

def children(x, ph):
    for y in subterms(x):
        # the first of them, not one further on
        if isinstance(y, tuple) and y and ((y[0] in ('c', 'call') and step(y)) or (y[0] == 'f' and y[2] == 'next')) and contains(y, ph): return False
    for y in subterms(x):
        if not isinstance(y, tuple): continue
        if y[0] == 'f' and y[2] == 'children' and y[1] in (ph, ('d', ph)): return True
        if y[0] in ('c', 'call') and (y[1] if y[0] == 'c' else y[3]).split('::')[-1] == 'jump_to_children' and contains(y, ph): return True
    return False

class Round(ValFlow):
    """remembers calls that check the cursor and throw when it is something else"""
    def start(self): return frozenset()
    def event(self, i, ts, st):
        if i.op == 'call' and i.a[0].split('::')[-1] in CHECKS and i.ctx.calls.get(i.n) is None:
            a = [st.val(x) for x in i.a[2]]
            l = [strip_str(x) for x in a[1:]]
            yield ts | {(a[0], l[-1][1] if l and l[-1][0] == 's' else None)}
        elif i.op == 'call' and 'std::' in i.a[0] and i.a[0].split('::')[-1] in ADDS: yield ts | {('add', ('i', 1))}
        elif i.op == 'call' and i.node.get('key') in DESCEND and not i.a[0].split('::')[-1].startswith('jump_to'):
            yield ts | {('into', a) for a in (st.val(x) for x in i.a[2]) if a[0] in ('c', 'call', 'f')}
        else: yield ts

def loop_kind(g, t):
    """'attr' or 'node' from the declared type of the cursor"""
    for i in g.instrs:
        fn = i.ctx.fn
        if t[0] != 'v' or fn.tu != t[1]: continue
        ty = None
        for p in fn.params:
            if p['d'] == t[2]: ty = p['t']
        for n in fn.nodes:
            if n.get('d') == t[2] and n.get('t'): ty = ty or n['t']
        if ty:
            if 'xmlAttr' in ty: return 'attr'
            if 'xmlNode' in ty: return 'node'
            return None
    return None

def effect(P, i, stack=()):
    """does the instruction change something other than local variables?"""
    if i.op == 'call' and i.ctx.calls.get(i.n) is None:
        fn, ob, args, res = i.a
        sh = fn.split('::')[-1]
        c = P.fns.get(i.node.get('key'))
        if c is not None and c.blocks and c.file.endswith('.cpp'): return c.key not in stack and has_effects(P, c, stack + (c.key,))
        if ob is not None and not i.node.get('const') and sh not in READS and i.node.get('op') not in ('->', '*', '==', '!=', '<', '=', '+', '+='):
            if base(ob)[0] not in ('v', 't'): return True
        if sh in ('push_back', 'insert', 'configure', 'append') or sh.startswith('set_'): return True
    if i.op == 'assign' and i.a[0] is not None and base(i.a[0])[0] in ('this', 'g', 'd', 'f'): return True
    return False
def has_effects(P, f, stack):
    return any(effect(P, i, stack) for i in graph(P, f, nobind=True, inline=False).instrs)
def effects(P, v, h):
    return any(effect(P, v.g.instrs[x], (v.g.root.key,)) for x in v.heads[h])

def base(t):
    while t[0] in ('f', 'd', 'x', 'addr') and isinstance(t[1], tuple): t = t[1]
    return t

def run(P, tier):
    R = Result('every round of a loop over configuration attributes or elements has matched the name with one it knows (or it is no element); the loop ends only at the end of the list or by refusing; element lists walked without a loop end with a test that nothing is left; filters without parameters refuse children; identifiers are defined once and references must exist; every name of the published schema of a filter is known to its configuration code')
    R.assumptions = ['helpers of the XML utilities behave as property C28 says', 'a loop that changes nothing only searches']
    def V(k, loc, msg, detail=()): R.violation('C11|' + k, loc, msg, list(detail))
    cfg = sorted((f for f in P.fns.values() if config_only(P, f) and '/test_' not in f.file and 'src/test_' not in f.file and not f.raw.get('lambda') and f.file.endswith('.cpp')), key=lambda f: (f.file, f.line))
    walkers = set()
    def opaque(fn): return fn.key in walkers or bool(fn.raw.get('ctor')) and fn.cls is not None and not fn.cls.startswith('metaproxy_1')
    # functions that walk a list themselves are judged on their own
    for f in cfg:
        g = graph(P, f, nobind=True, inline=False)
        v0 = Round(g)
        for h in v0.heads:
            if any(i.op == 'call' and i.a[0].endswith('::jump_to_next') or i.op in ('assign',) and uses_next(i) for i in (g.instrs[x] for x in v0.heads[h])):
                walkers.add(f.key)
    DESCEND.clear(); DESCEND.update(walkers)
    for f in cfg:
        if f.key not in walkers: continue
        g = Graph(P, f, nobind=True, opaque=lambda fn: fn.key in walkers)
        v0 = Round(g)
        for h in v0.heads:
            if g.instrs[h].ctx.parent is not None: continue
            v = Round(g).run(loop=h)
            t, ph = cursor(v, h)
            if t is None: continue
            kind = loop_kind(g, t)
            if kind is None: continue
            R.functions.add(f.key); R.count('loops')
            nm = '%s|%s|%s' % (short(f.name), kind, t[-1])
            what = 'attribute' if kind == 'attr' else 'element'
            if f.file.endswith('xmlutil.cpp') and f.short not in ('parse_attr',): continue
            if not effects(P, v, h) and not any(i.op == 'call' and i.a[0].split('::')[-1] in CHECKS for i in (g.instrs[x] for x in v.heads[h])) and not assigns_used(v, h, t):
                R.count('searches')
                deep = kind == 'node' and descends(V, R, v, g, h, ph, nm, f)
                if deep or any(k not in v.live for k in v.outside):         # it refuses something: it has to look at all of them
                    ends(V, R, v, g, h, t, ph, what, nm, f)
                continue
            for ts, s, i in v.backs[h]:
                R.ob((nm, s.key(), ts)); R.count('rounds')
                if v.collapsed and not s.conds: continue
                if kind == 'node' and no_element(s.conds, ph): continue
                if understood(s.conds, ph) or any(x[0] not in ('into', 'add') and contains(x[0], ph) for x in ts): continue
                V(nm + '|unknown', i.loc(), 'an unknown %s is accepted by the configuration of %s' % (what, short(f.name)), [' && '.join(sc(c) for c in s.conds)])
            ends(V, R, v, g, h, t, ph, what, nm, f)
            if kind == 'node' and f.file.endswith('router_flexml.cpp'): entries(V, R, v, h, ph, nm, f)
    sequences(P, R, V, cfg, walkers)
    all_looked_at(P, R, V, walkers)
    references(P, R, V, cfg, walkers)
    empties(P, R, V)
    schemas(P, R, V)
    R.need('loops', 20); R.need('filters', 10); R.need('definitions', 2); R.need('names', 60)
    return R

def ends(V, R, v, g, h, t, ph, what, nm, f):
    for k, l in v.outside.items():
        if k not in v.live: continue
        for ts, s, i in l:
            nx = g.instrs[k]
            for s2 in (v.apply(nx, s) if nx.op == 'assume' else [s]):
                R.ob((nm, 'leave', s2.key())); R.count('ends')
                if ended(s2.conds, ph) or tested_after(v, g, h, t, nx) or never(s2.conds, ph): continue
                V(nm + '|rest', i.loc(), 'the rest of the %ss is not looked at by %s' % (what, short(f.name)), [' && '.join(sc(c) for c in s2.conds)])

def descends(V, R, v, g, h, ph, nm, f):
    """a walk that only checks looks into every element it knows"""
    bad = []; any_ok = False
    for ts, s, i in v.backs[h]:
        names = understood(s.conds, ph)
        if not names: continue
        R.ob((nm, 'into', s.key())); R.count('descents')
        ok = any(x[0] == 'into' and children(x[1], ph) for x in ts)
        for a, p in s.conds:
            if a[0] == '==' and p and I0 in (a[1], a[2]):
                u = a[1] if a[2] == I0 else a[2]
                if children(u, ph) and (u[0] != 'f' or u[2] == 'children'): ok = True
                if u[0] == 'phi' and u[1] != h and any(children(x, ph) for src, x, c in v.phis.get((u[1], u[2]), {})): ok = True
        any_ok |= ok
        if not ok: bad.append((i, names, s))
    for i, names, s in bad if any_ok else ():
        V(nm + '|inside', i.loc(), '%s does not look inside every %s' % (short(f.name), '/'.join(sorted(str(n) for n in names))), [' && '.join(sc(c) for c in s.conds)])
    return any_ok

def entries(V, R, v, h, ph, nm, f):
    """every filter or route written down becomes an entry (or the walk goes on inside it)"""
    if not any(x[0] in ('add',) for ts, s, i in v.backs[h] for x in ts): return
    for ts, s, i in v.backs[h]:
        if v.collapsed and not s.conds: continue
        if no_element(s.conds, ph) or any(p and c[0] == '==' and c[2] == I0 and c[1] is not None and c[1][0] == 'call' and c[1][3].split('::')[-1] in CHECKS for c, p in s.conds): continue
        R.ob((nm, 'entry', s.key(), ts)); R.count('entries')
        if not any(x[0] == 'add' or (x[0] == 'into' and children(x[1], ph)) for x in ts):
            V(nm + '|dropped', i.loc(), 'an element %s reads can be left without any effect' % short(f.name), [' && '.join(sc(c) for c in s.conds)])

def empties(P, R, V):
    """the check that nothing is configured looks at every child element"""
    for f in P.fns.values():
        if f.short != 'check_empty' or not f.file.endswith('xmlutil.cpp'): continue
        g = graph(P, f, nobind=True); v = ValFlow(g).run()
        p = ('v', f.tu, f.params[0]['d'], 0, f.params[0]['n'])
        R.functions.add(f.key)
        stop = {}
        for h in v.heads:
            for (hh, t), srcs in v.phis.items():
                if hh == h and loop_kind(g, t) == 'node' and any(unshare(children1(x), p) for src, x, c in srcs): stop[h] = t
        for h, t in stop.items():
            ph = ('phi', h, t)
            for ts, s, i in v.backs[h]:
                R.ob(('empty', h, s.key())); R.count('rounds')
                if not no_element(s.conds, ph): V('empty|element', i.loc(), 'a child element is accepted where nothing may be configured', [' && '.join(sc(c) for c in s.conds)])
            ends(V, R, v, g, h, t, ph, 'element', 'empty', f)
        seen = {g.entry.id}; w = [g.entry]
        while w:
            x = w.pop()
            if x.id in stop: continue
            if x is g.exitnode:
                V('empty|unread', f.loc(), 'a configuration that has to be empty is accepted without being looked at'); break
            if x.op == 'assume':
                st = VS({}, frozenset()); r = st.assume(st.val(x.a[0]), x.a[1])
                if r and all(ended(s.conds, p) for s in r): continue
            for s in x.succ:
                if s.id not in seen: seen.add(s.id); w.append(s)

def children1(x):
    x = strip_str(x)
    if x[0] == 'f' and x[2] == 'children': return x[1]
    if x[0] in ('c', 'call') and (x[1] if x[0] == 'c' else x[3]).split('::')[-1] == 'jump_to_children': return argof(x)
    return None
def unshare(x, p): return x is not None and x in (p, ('d', p))

class Seq(Round):
    """elements taken one after another without a loop: remembers the last one reached"""
    def start(self): return (frozenset(), None)
    def event(self, i, ts, st):
        chk, last = ts
        for c in Round.event(self, i, chk, st):
            n = last
            if i.op == 'assign' and i.id not in self.inloop:
                x = st.val(i.a[1])
                if step(x): n = x
            yield (c, n)

def step(x):
    return x[0] in ('c', 'call') and (x[1] if x[0] == 'c' else x[3]).split('::')[-1] == 'jump_to_next'
def argof(x): return (x[3] if x[0] == 'c' else x[5])

def sequences(P, R, V, cfg, walkers):
    for f in cfg:
        if f.file.endswith('xmlutil.cpp'): continue
        g = Graph(P, f, nobind=True, opaque=lambda fn: fn.key in walkers)
        calls = [i for i in g.instrs if i.op == 'call' and i.a[0].split('::')[-1] == 'jump_to_next' and i.ctx.calls.get(i.n) is None]
        if not calls: continue
        v = Seq(g); v.inloop = set(x for b in v.heads.values() for x in b)
        calls = [i for i in calls if i.id not in v.inloop]
        if not calls: continue
        R.functions.add(f.key)
        v.run()
        for i in calls:
            for ts, s in v.at(i):
                x = s.val(i.a[2][0]); R.ob(('seq', i.id, s.key())); R.count('steps')
                if understood(s.conds, x) or any(c[0] not in ('into', 'add') and contains(c[0], x) for c in ts[0]): continue
                V('%s|passed' % short(f.name), i.loc(), 'an element of the configuration is passed over by %s without being understood' % short(f.name), [' && '.join(sc(c) for c in s.conds)])
        for ts, s, r in v.exits():
            R.ob(('seqend', s.key())); R.count('steps')
            if ts[1] is not None and not ended(s.conds, ts[1]):
                V('%s|left' % short(f.name), f.loc(), 'elements left over after the last one %s understands are not refused' % short(f.name), [' && '.join(sc(c) for c in s.conds)])

FB = 'metaproxy_1::filter::Base'
def all_looked_at(P, R, V, walkers):
    """every filter walks its configuration, or refuses to have one"""
    for f in P.fns.values():
        if f.short != 'configure' or not f.cls or not derives(P, f.cls, FB) or f.cls == FB or 'src/test_' in f.file or not f.raw.get('overn'): continue
        R.functions.add(f.key); R.count('filters')
        g = Graph(P, f, nobind=True, opaque=lambda fn: fn.key in walkers)
        stop = set()
        v = ValFlow(g)
        if f.key in walkers:
            for h, b in v.heads.items():
                if g.instrs[h].ctx.parent is None: stop |= {h}
        for i in g.instrs:
            if i.op == 'call' and i.ctx.calls.get(i.n) is None and (i.a[0].split('::')[-1] in ('check_empty', 'yaz_retrieval_configure_t') or i.node.get('key') in walkers): stop.add(i.id)
        p = ('v', f.tu, f.params[0]['d'], 0, f.params[0]['n'])
        seen = {g.entry.id}; w = [g.entry]; bad = None
        while w:
            x = w.pop()
            if x.id in stop: continue
            if x is g.exitnode: bad = x; break
            if x.op == 'assume':
                st = VS({}, frozenset()); r = st.assume(st.val(x.a[0]), x.a[1])
                if r and all(ended(s.conds, p) for s in r): continue
            for s in x.succ:
                if s.id not in seen: seen.add(s.id); w.append(s)
        R.ob(('filter', f.cls), '%s: configuration looked at on every path: %s' % (short(f.cls), bad is None))
        if bad is not None: V('unread|' + short(f.cls), f.loc(), 'the configuration of %s is accepted without being looked at' % short(f.cls))

def found(conds, key):
    for a, p in conds:
        if a[0] == '==':
            for u, w in ((a[1], a[2]), (a[2], a[1])):
                if u[0] == 'c' and callfn(u) == 'find' and w[0] == 'c' and callfn(w) == 'end' and u[2] == w[2] and (key is None or strip_str(u[3]) == key): return not p
                if u[0] == 'c' and callfn(u) == 'count' and w == I0 and (key is None or strip_str(u[3]) == key): return not p
    return None

def references(P, R, V, cfg, walkers):
    """the tables of the router: one definition per name, references exist"""
    for f in cfg:
        if not f.file.endswith('router_flexml.cpp'): continue
        g = Graph(P, f, nobind=True, opaque=lambda fn: fn.key in walkers)
        v = ValFlow(g).run()
        for i in g.instrs:
            if i.op == 'call' and i.ctx.calls.get(i.n) is None and i.a[1] is not None and 'map' in i.a[0] and i.a[0].split('::')[-1] in ('operator[]', 'insert', 'emplace', 'insert_or_assign'):
                for ts, s in v.at(i):
                    k = i.a[0].split('::')[-1]
                    R.ob(('def', i.id, s.key())); R.count('definitions')
                    if k in ('insert', 'emplace') and any(w.op == 'assume' and 'second' in repr(w.a) for w in g.instrs): continue
                    keys = keys_of(s, i)
                    if not any(found(s.conds, key) is False for key in keys):
                        V('twice|%s' % short(f.name), i.loc(), 'a name that is already defined can be defined again by %s' % short(f.name), [' && '.join(sc(c) for c in s.conds)])
        # what is looked up and not there must not be passed over
        for h in list(v.heads) + [None]:
            for ts, s, i in (v.backs[h] if h is not None else [(ts, s, g.entry) for ts, s, r in v.exits()]):
                for a, p in s.conds:
                    if a[0] != '==' or not p: continue
                    for u, w in ((a[1], a[2]), (a[2], a[1])):
                        if u[0] == 'c' and callfn(u) == 'find' and w[0] == 'c' and callfn(w) == 'end' and u[2] == w[2] and f.short != 'base':
                            R.count('lookups')
                            if not defines(v, g, u, s): V('missing|%s' % short(f.name), i.loc(), '%s goes on after a name it looked up does not exist' % short(f.name), [' && '.join(sc(c) for c in s.conds)])

def uses_next(i):
    nd = i.node or {}
    a = i.a
    return any(isinstance(x, tuple) and x[0] == 'f' and x[2] == 'next' for x in subterms(a[1])) if len(a) > 1 and isinstance(a[1], tuple) else False

def assigns_used(v, h, t):
    """the loop hands something out through local variables other than its cursor"""
    m = [x for x in v.mods[h] if x[0] == 'v' and x != t]
    if not m: return False
    for i in v.g.instrs:
        if i.id in v.heads[h] or i.id not in v.live: continue
        if i.op in ('acc',): continue
        ts = list(i.a) if isinstance(i.a, (tuple, list)) else [i.a]
        if i.op in ('assign', 'decl', 'init'): ts = ts[1:]
        if i.op == 'call': ts = [i.a[1]] + list(i.a[2])
        for x in ts:
            if isinstance(x, tuple) and any(y in m for y in subterms(x) if isinstance(y, tuple)): return True
    return False

def never(conds, ph):
    """a helper that throws unless the name matches cannot have answered no"""
    for a, p in conds:
        if a[0] == '==' and p and I0 in (a[1], a[2]):
            for u in (a[1], a[2]):
                if u[0] in ('call', 'c') and (u[3] if u[0] == 'call' else u[1]).split('::')[-1] in CHECKS and contains(u, ph): return True
    return False

def tested_after(v, g, h, t, nx):
    """no normal return is reached from nx without the cursor having been tested to be null"""
    seen = {nx.id}; w = [nx]
    while w:
        x = w.pop()
        if x.op == 'assume':
            st = VS({}, frozenset())
            r = st.assume(st.val(x.a[0]), x.a[1])
            if r and all(ended(s.conds, t) for s in r): continue
        if x is g.exitnode: return False
        for s in x.succ:
            if s.id not in seen and s.id in v.live: seen.add(s.id); w.append(s)
    return True


def unphi(t):
    while t[0] in ('phi', 'out') and isinstance(t[-1], tuple): t = t[-1]
    return t

def keys_of(s, i):
    """what an insertion may use as key: the index, or the parts of the pair handed over"""
    v = s.val(i.a[2][0])
    if i.a[0].split('::')[-1] not in ('insert', 'emplace'): return [strip_str(v)]
    return [strip_str(x) for x in subterms(v) if x and x[0] in ('v', 'f', 'x', 'd', 'c', 'call', 'out', 'b', 's', 't', 'phi')]

def defines(v, g, u, s):
    """the missing name was looked up in order to define it"""
    for i in g.instrs:
        if i.op == 'call' and i.a[1] is not None and 'map' in i.a[0] and i.a[0].split('::')[-1] in ('operator[]', 'insert', 'emplace', 'insert_or_assign'):
            for ts, x in v.at(i):
                if strip_str(u[3]) in keys_of(x, i) and x.loc(i.a[1]) in (u[2], unphi(u[2])): return True
    return False

def schemas(P, R, V):
    """the names of the published schema of each filter appear in the code that reads its configuration"""
    import glob
    common = set(n['v'] for f in P.fns.values() if f.file.endswith('xmlutil.cpp') for n in f.nodes if n.get('k') == 'str')
    for p in sorted(glob.glob(os.path.join(REPO, 'xml', 'schema', 'filter_*.rnc'))):
        with open(p) as fh: t = re.sub(r'#.*', '', fh.read())
        ty = re.search(r'attribute\s+type\s*\{\s*"(\w+)"\s*\}', t)
        if not ty: continue
        t = t.replace(ty.group(0), '')
        file = set(g['file'] for g in P.globals.values() if g['name'].split('::')[-1] == 'metaproxy_1_filter_' + ty.group(1))
        roots = [f for f in P.fns.values() if f.file in file and f.short == 'configure']
        if not roots: continue
        reach = {}; w = list(roots)
        while w:
            f = w.pop()
            if f.key in reach: continue
            reach[f.key] = f
            w += [c for c in (P.fns.get(n.get('key')) for n in f.nodes) if c is not None and c.file in file]
        lits = set(common)
        for f in reach.values(): lits |= set(n['v'] for n in f.nodes if n.get('k') == 'str')
        for g in P.globals.values():
            if g['file'] in file: lits |= set(n['v'] for n in g['nodes'] if n.get('k') == 'str')
        pre = [l for l in lits if l.endswith('_')]
        for kind, n in re.findall(r'(element|attribute)\s+(?:mp:)?([\w-]+)', t):
            if (kind, n) in (('attribute', 'id'), ('attribute', 'name'), ('element', 'qual'), ('element', 'attr'), ('attribute', 'value')): continue
            R.ob(('schema', ty.group(1), kind, n)); R.count('names')
            if n not in lits and not any(n.startswith(x) for x in pre):
                V('schema|%s|%s' % (ty.group(1), n), roots[0].loc(), 'the %s %s of the published schema is not known to the configuration of %s' % (kind, n, ty.group(1)))
