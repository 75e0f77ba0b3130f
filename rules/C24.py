"""C24: the filter registry creates exactly the type asked for."""
from mp.common import *
from mp.val import *
from mp.report import Result
from mp.load import REPO
import os, re
TECHNIQUE = 'value-numbering dataflow: decision tables of the registry functions; cross-check of registration records, creators and the built-in list over all translation units'
FF = 'metaproxy_1::FactoryFilter'

def flat(v):
    v = strip_str(v)
    if v[0] == 'b' and v[1] == '+': return flat(v[2]) + flat(v[3])
    if v == ('s', ''): return []
    return [v]

def run(P, tier):
    R = Result('registration inserts and never replaces; removal erases exactly the name; creation calls exactly the creator stored under the name or throws; a type is loaded only when unknown, from the symbol and file named after it; every registration record pairs its own name with a creator of its own class and the built-in list registers each once')
    R.assumptions = ['std::map semantics', 'the dynamic loader returns the symbol asked for']
    def V(k, f, msg, detail=()): R.violation('C24|' + k, f if isinstance(f, str) else f.loc(), msg, list(detail))
    T = ('this', 0)
    tabs = {}
    def methods(n):
        l = [f for f in P.methods_of[FF] if f.short == n]
        for f in l: R.functions.add(f.key)
        return l
    class Seen(ValFlow):
        """the path state remembers that the table was changed through [] or an assignment"""
        def start(self): return False
        def event(self, i, ts, st):
            yield ts or (i.op == 'call' and i.ctx.calls.get(i.n) is None and i.a[1] is not None and i.a[0].split('::')[-1] in ('operator[]', 'insert_or_assign') and 'map' in i.a[0])
    def table(f): return Seen(graph(P, f, nobind=True)).run()
    def par(f, k):
        p = f.params[k]; return ('v', f.tu, p['d'], 0, p['n'])
    def outs(v):
        for ts, s, r in v.exits(): yield s, r, False
        for ts, s in v.at(v.g.throwexit): yield s, None, True
    def outs_ts(v):
        for ts, s, r in v.exits(): yield ts, s, r, False
        for ts, s in v.at(v.g.throwexit): yield ts, s, None, True
    def cj(s): return [' && '.join(sc(c) for c in s.conds)]
    def is_map(t): return t is not None and t[0] == 'f'
    def found(s, name):
        """does the path know the name to be (un)registered: True/False/None, and the map"""
        for a, p in s.conds:
            if a[0] == '==':
                x, y = a[1], a[2]
                for u, w in ((x, y), (y, x)):
                    if u[0] == 'c' and callfn(u) == 'find' and w[0] == 'c' and callfn(w) in ('end',) and u[2] == w[2] and strip_str(u[3]) == name: return (not p), u[2]
                    if u[0] == 'c' and callfn(u) == 'count' and w == I0 and strip_str(u[3]) == name: return (not p), u[2]
                if x[0] == 'c' and callfn(x) == 'count' and strip_str(x[3]) == name and y == ('i', 1): return p, x[2]
            if a[0] == '<' and a[1] == I0 and a[2][0] == 'c' and callfn(a[2]) == 'count': return p, a[2][2]
        return None, None
    def key_value(i, s):
        """(map, name, creator) inserted by a call"""
        fn, ob, args, res = i.a
        sh = fn.split('::')[-1]
        a = [s.val(x) for x in args]
        if sh == 'insert' and len(a) == 1:
            p = a[0]
            q = pair(p)
            if q: return s.loc(ob), q[0], q[1]
        if sh in ('emplace', 'try_emplace') and len(a) == 2: return s.loc(ob), strip_str(a[0]), a[1]
        return None
    def pair(p):
        if p[0] == 'call': a = [x for x in p[5:]]
        elif p[0] == 'c': a = [x for x in p[3:]]
        else: return None
        if len(a) == 1: return pair(a[0])
        return (strip_str(a[0]), a[1]) if len(a) == 2 else None
    MUT = {'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]', 'erase', 'clear', 'swap', 'operator='}
    def mutations(v):
        for i in v.g.instrs:
            if i.op == 'call' and i.ctx.calls.get(i.n) is None and i.a[1] is not None and i.a[0].split('::')[-1] in MUT and 'map' in i.a[0]: yield i
            elif i.op == 'assign' and i.a[0] is not None and i.a[0][0] == 'x': yield i
    M = None
    def registration(f, v, name, creator, tag):
        """every change of the table is an insertion of (name, creator)"""
        nonlocal M
        for i in mutations(v):
            for ts, s in v.at(i):
                R.ob((tag, i.id, s.key())); R.count('changes')
                kv = key_value(i, s) if i.op == 'call' else None
                if kv is None:
                    # [] or assignment is fine once the name is known to be new
                    if i.op == 'call' and i.a[0].split('::')[-1] == 'operator[]' and found(s, name)[0] is False: continue
                    if i.op == 'assign' and found(s, name)[0] is False: continue
                    V(tag + '|replace', i.loc(), 'registering a filter type can replace or remove one that is already registered', cj(s)); continue
                M = kv[0]
                if kv[1] != name: V(tag + '|name', i.loc(), 'a filter type is registered under %s' % sv(kv[1]))
                if not creator(kv[2], s): V(tag + '|creator', i.loc(), 'a filter type is registered with %s' % sv(kv[2]))
    def inserted(s):
        """the outcome of the insertion on this path"""
        for a, p in s.conds:
            if a[0] == '==' and a[2] == I0 and a[1][0] == 'f' and a[1][2] == 'second': return not p
            if a[0] == '==' and a[2] == ('i', 1) and a[1][0] == 'f' and a[1][2] == 'second': return p
        return None
    # --- add
    for f in methods('add_creator'):
        v = table(f); name, cr = par(f, 0), par(f, 1)
        registration(f, v, name, lambda c, s: c == cr, 'add')
        for put, s, r, thr in outs_ts(v):
            R.ob(('add', s.key())); R.count('paths')
            k = inserted(s)
            if k is None and put: k = True
            if k is None:
                fo = found(s, name)[0]
                k = None if fo is None else not fo
            if thr or k is None or r != ('i', int(k)): V('add|result', f, 'registering a filter type does not report whether it was new', cj(s))
        if not any(True for i in mutations(v)): V('add|none', f, 'registering a filter type does not store it')
    # --- drop
    for f in methods('drop_creator'):
        v = table(f); name = par(f, 0)
        n = 0
        for i in mutations(v):
            for ts, s in v.at(i):
                R.ob(('drop', i.id, s.key())); R.count('changes'); n += 1
                a = [strip_str(s.val(x)) for x in (i.a[2] if i.op == 'call' else [])]
                ok = i.op == 'call' and i.a[0].endswith('::erase') and len(a) == 1 and (a[0] == name or (a[0][0] == 'c' and callfn(a[0]) == 'find' and strip_str(a[0][3]) == name and found(s, name)[0]))
                if not ok: V('drop|name', i.loc(), 'removing a filter type changes another entry', cj(s))
        if not n: V('drop|none', f, 'removing a filter type does not remove it')
        for s, r, thr in outs(v):
            R.ob(('drop', s.key())); R.count('paths')
            k = None
            for a, p in s.conds:
                if a[0] == '==' and a[1][0] in ('c', 'call') and (callfn(a[1]) == 'erase' or a[1][0] == 'call' and a[1][3].endswith('::erase')):
                    k = p if a[2] == ('i', 1) else (not p) if a[2] == I0 else None
                if a[0] == '<' and a[1] == I0 and a[2][0] in ('c', 'call'): k = p
            if k is None: k = found(s, name)[0]
            if thr or k is None or r != ('i', int(k)): V('drop|result', f, 'removing a filter type does not report whether it was there', cj(s))
    # --- exist
    for f in methods('exist'):
        v = table(f); name = par(f, 0)
        for i in mutations(v): V('exist|change', i.loc(), 'asking for a filter type changes the registry')
        for s, r, thr in outs(v):
            R.ob(('exist', s.key())); R.count('paths')
            k = found(s, name)[0]
            if thr or k is None or r != ('i', int(k)): V('exist|result', f, 'whether a filter type is known is not what the registry holds', cj(s))
    # --- create
    for f in methods('create'):
        v = table(f); name = par(f, 0)
        for i in mutations(v): V('create|change', i.loc(), 'creating a filter changes the registry')
        thrown = False
        for s, r, thr in outs(v):
            R.ob(('create', s.key())); R.count('paths')
            k = found(s, name)[0]
            if thr:
                thrown = True
                if k is not False: V('create|throw', f, 'a registered filter type is refused', cj(s))
            else:
                if k is not True: V('create|unknown', f, 'an unknown filter type is not refused', cj(s)); continue
                fp = r[4] if r and r[0] == 'call' and not r[3] else None
                while fp is not None and fp[0] in ('d', 'addr'): fp = fp[1]
                e = fp[1] if fp is not None and fp[0] == 'f' and fp[2] == 'second' else None
                if e is not None and e[0] == 'd': e = e[1]
                if not (e is not None and e[0] == 'c' and callfn(e) in ('find', 'at') and strip_str(e[3]) == name or fp is not None and fp[0] in ('c', 'x') and repr(fp).find(repr(name)) >= 0):
                    V('create|creator', f, 'the filter created is not made by the creator registered for the type (%s)' % (sv(r) if r else r), cj(s))
        if not thrown: V('create|unknown', f, 'an unknown filter type is not refused')
    # --- load
    for f in methods('add_creator_dl'):
        v = table(f); name, path = par(f, 0), par(f, 1)
        def sym(t): return t is not None and t[0] in ('call', 'c') and (t[3] if t[0] == 'call' else t[1]) == 'dlsym'
        def loaded(c, s):
            while c[0] in ('d', 'addr'): c = c[1]
            return c[0] == 'f' and c[2] == 'creator' and sym(c[1] if c[1][0] != 'd' else c[1][1])
        registration(f, v, name, loaded, 'load')
        for i in v.g.instrs:
            if i.op != 'call': continue
            for ts, s in v.at(i):
                if i.a[0] == 'dlsym':
                    R.ob(('dlsym', i.id, s.key())); R.count('symbols')
                    n = flat(s.val(i.a[2][1]))
                    if n != [('s', 'metaproxy_1_filter_'), name]: V('load|symbol', i.loc(), 'a filter type is loaded from the symbol %s' % ' + '.join(sv(x) for x in n))
                if i.a[0] == 'dlopen':
                    R.ob(('dlopen', i.id, s.key())); R.count('symbols')
                    a = s.val(i.a[2][0])
                    if a == I0: continue
                    n = flat(a)
                    if n != [path, ('s', '/metaproxy_filter_'), name, ('s', '.so')]: V('load|file', i.loc(), 'a filter type is loaded from the file %s' % ' + '.join(sv(x) for x in n))
                    if found(s, name)[0] is not False: V('load|again', i.loc(), 'a filter type that is already registered is loaded again', cj(s))
        for put, s, r, thr in outs_ts(v):
            R.ob(('load', s.key())); R.count('paths')
            if thr: V('load|throw', f, 'loading a filter type does not always answer', cj(s)); continue
            k = found(s, name)[0]; ins = inserted(s)
            if ins is None and put: ins = True
            good = (r == ('i', 1) and (k is True or ins is True)) or (r == I0 and (ins is False or (ins is None and k is False)))
            if not good: V('load|result', f, 'loading a filter type does not report whether it is registered now', cj(s))
    # --- registration records
    recs = {}
    for k, g in P.globals.items():
        if 'metaproxy_1_filter_struct' not in g['t'] or '*' in g['t'] or g.get('init') is None: continue
        nm = g['name'].split('::')[-1]
        ini = g['nodes'][g['init']] if isinstance(g['init'], int) else None
        strs = [n['v'] for n in g['nodes'] if n.get('k') == 'str']
        keys = [n['key'] for n in g['nodes'] if n.get('key')]
        R.ob(('rec', nm), 'record %s: type %s' % (nm, strs)); R.count('records')
        loc = '%s:%s' % (g['file'].replace('/@R/', ''), g['line'])
        recs.setdefault(nm, g)
        if nm.startswith('metaproxy_1_filter_') and strs[:1] != [nm[len('metaproxy_1_filter_'):]]:
            V('record|name|' + nm, loc, 'the record %s registers the type %s' % (nm, strs[:1]))
        for key in keys:
            c = P.fns.get(key)
            if not c: continue
            made = set(n.get('t', '').rstrip(' *') for n in c.nodes if n.get('k') == 'new')
            if len(made) != 1: V('record|creator|' + nm, loc, 'the creator of %s does not make a filter' % nm); continue
            cls = made.pop().replace('class ', '')
            full = [k2 for k2 in P.recs if k2 == cls or k2.endswith('::' + cls.split('::')[-1])]
            own = [k2 for k2 in full if P.recs[k2]['file'].split('/')[-1].split('.')[0] == g['file'].split('/')[-1].split('.')[0] or P.recs[k2]['file'].split('/')[-1].replace('.hpp', '.cpp') == g['file'].split('/')[-1]]
            if not own: V('record|class|' + nm, loc, 'the creator of %s makes a %s, which is not the filter of that unit' % (nm, short(cls)))
            c2 = [k3 for k3, g3 in recs.items() if k3 != nm and any(n.get('key') == key for n in g3['nodes'])]
            if c2: V('record|shared|' + nm, loc, 'two filter types share one creator (%s, %s)' % (nm, c2[0]))
    # --- built-in list
    listed = []
    for f in P.fns.values():
        if f.raw['ctor'] and f.cls and derives(P, f.cls, FF) and f.cls != FF:
            R.functions.add(f.key)
            listed += [n.get('n') for n in f.nodes if n.get('k') == 'ref' and str(n.get('n', '')).startswith('metaproxy_1_filter_')]
            v = ValFlow(graph(P, f, nobind=True, inline=False)).run()
            for i in v.g.instrs:
                if i.op == 'call' and i.a[0].endswith('::add_creator'):
                    for ts, s in v.at(i):
                        a = [strip_str(s.val(x)) for x in i.a[2]]
                        R.ob(('builtin', i.id, s.key())); R.count('builtins')
                        def base(x):
                            b = x[1] if x[0] == 'f' else None
                            return b[1] if b is not None and b[0] == 'd' else b
                        if not (a[0][0] == 'f' and a[0][2] == 'type' and a[1][0] == 'f' and a[1][2] == 'creator' and base(a[0]) == base(a[1])):
                            V('builtin|pair', i.loc(), 'a built-in type is registered with something else than its own record (%s, %s)' % (sv(a[0]), sv(a[1])))
            for h in v.heads:
                walked = False
                for (hh, t), srcs in v.phis.items():
                    if hh != h or t[0] != 'v': continue
                    ph = ('phi', h, t)
                    if not any(x == ('b', '+', ph, ('i', 1)) for src, x, c in srcs if (src, h) in v.back): continue
                    walked = True
                    for src, x, c in srcs:
                        R.ob(('builtin-walk', t, src, x))
                        if (src, h) in v.back:
                            if x not in (('b', '+', ph, ('i', 1)),): V('builtin|walk', f, 'the built-in list is not walked one by one')
                            # each round registers
                        elif x not in (I0,) and x[0] not in ('addr', 'v'): V('builtin|walk', f, 'the built-in list is not walked from its start')
                if not walked: V('builtin|walk', f, 'the built-in list is not walked one by one')
                for ts, s, i in v.leaves[h]:
                    if not any(p and a[0] == '==' and a[2] == I0 for a, p in s.conds) and not any(a[0] == '<' and not p for a, p in s.conds):
                        V('builtin|stop', f, 'registering the built-in types can stop early', cj(s))
            # every round of the walk registers
            adds = set(i.id for i in v.g.instrs if i.op == 'call' and i.a[0].endswith('::add_creator'))
            for u, h in v.back:
                if reaches_without(v.g, h, u, adds, v.heads[h]): V('builtin|skip', f, 'the walk over the built-in types can pass one without registering it')
    if listed:
        mk = os.path.join(REPO, 'src', 'Makefile.am')
        mods = set()
        if os.path.exists(mk):      # units built as modules of their own are loaded by name instead
            with open(mk) as fh: mods = set(w for l in re.findall(r'^metaproxy_filter_\w+_la_SOURCES\s*=\s*(.*)', fh.read(), re.M) for w in l.split())
        own = set(n for n, g in recs.items() if '/test_' not in g['file'] and g['file'].split('/')[-1] not in mods)
        for n in sorted(own - set(listed)):
            R.ob(('listed', n)); V('builtin|missing|' + n, recs[n]['file'].replace('/@R/', ''), 'the filter type %s is not among the built-in types' % n)
        for n in set(listed):
            R.ob(('listed', n))
            if listed.count(n) > 1: V('builtin|twice|' + n, 'src/factory_static.cpp', '%s is listed twice' % n)
    R.need('paths', 5); R.need('records', 10); R.need('builtins', 1)
    return R

def reaches_without(g, h, u, ids, body):
    seen = {h}; w = [g.instrs[h]]
    while w:
        x = w.pop()
        if x.id in ids: continue
        if x.id == u: return True
        for s in x.succ:
            if s.id in body and s.id not in seen: seen.add(s.id); w.append(s)
    return False
