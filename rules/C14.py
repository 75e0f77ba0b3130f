"""C14: a session keeps one process-wide unique identity for life, is ordered by it alone, and stays closed once closed."""
from mp.common import *
from mp.val import *
from mp.report import Result
TECHNIQUE = 'value-numbering dataflow over the session class (decision table of every member function), writer analysis of the identity and counter, lock-epoch analysis of the counter'
S = 'metaproxy_1::Session'
PKG = 'metaproxy_1::Package'

def table(P, f):
    g = graph(P, f, nobind=True)
    return g, ValFlow(g).run()

def offset(v, base):
    """k if v is base + k"""
    if v == base: return 0
    if v[0] == 'b' and v[1] == '+':
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if b[0] == 'i':
                o = offset(a, base)
                if o is not None: return o + b[1]
    if v[0] == 'b' and v[1] == '-' and v[3][0] == 'i':
        o = offset(v[2], base)
        return None if o is None else o - v[3][1]
    return None

def outcomes(exits, a, b):
    """order relation between a and b -> set of results; None when something else is looked at"""
    out = {'lt': set(), 'eq': set(), 'gt': set()}
    for ts, s, r in exits:
        ok = {'lt', 'eq', 'gt'}
        for (c, p) in s.conds:
            if c == ('<', a, b): ok &= {'lt'} if p else {'eq', 'gt'}
            elif c == ('<', b, a): ok &= {'gt'} if p else {'eq', 'lt'}
            elif c[0] == '==' and set(c[1:]) == {a, b}: ok &= {'eq'} if p else {'lt', 'gt'}
            else: return None
        for o in ok: out[o].add(r)
    return out

def run(P, tier):
    R = Result('identity = strictly advanced process-wide counter taken in one critical section; identity and closed mark are written only where a session is made, copied or closed; every member function agrees with its decision table; packages and connections carry the session they were given')
    R.assumptions = ['the counter does not wrap around in the lifetime of a process', 'compiler-generated copies copy every field']
    rec = P.recs.get(S)
    if not rec: raise AnalysisError('no class ' + S)
    fields = [f['n'] for f in rec['fields']]
    def meth(n, pred=lambda f: True):
        l = [f for f in P.methods_of[S] if f.short == n and pred(f)]
        for f in l: R.functions.add(f.key)
        return l
    def V(k, f, msg, detail=()):
        R.violation('C14|' + k, f.loc() if f is not None else 'include/metaproxy/session.hpp', msg, list(detail))
    T = ('this', 0)
    # --- observers tell us which field is which
    idf = clf = None
    for f in meth('id'):
        g, v = table(P, f)
        vals = set(r for _, _, r in v.exits())
        R.ob('id'); R.count('observers')
        for r in vals:
            if r is None or r[0] != 'f' or r[1] != T or r[2] not in fields: V('id', f, 'the identity a session reports is not the stored one (%s)' % sv(r)); r = None
            else: idf = r[2]
        if len(vals) != 1: V('id', f, 'the identity a session reports depends on more than the session')
        idt = f.ret
    for f in meth('is_closed'):
        g, v = table(P, f)
        R.ob('is_closed'); R.count('observers')
        for ts, s, r in v.exits():
            at = [c for c in s.conds]
            if len(at) != 1 or at[0][0][0] != '==' or at[0][0][1][0] != 'f' or at[0][0][1][1] != T or at[0][0][2] != I0 or (not at[0][1]) != (r == ('i', 1)):
                V('is_closed', f, 'whether a session is closed is not what was stored by closing it', [' && '.join(sc(c) for c in s.conds)])
            else: clf = at[0][0][1][2]
    if not R.findings and (idf is None or clf is None): raise AnalysisError('identity or closed mark not found')
    if idf is None or clf is None:
        R.need('observers', 1)
        return R
    # --- creation
    counter = None
    for f in meth('Session', lambda f: f.raw['ctor'] and not f.params):
        g, v = table(P, f)
        offs = set()
        for ts, s, r in v.exits():
            R.ob(('ctor', len(offs)), 'new session: %s' % ', '.join('%s = %s' % (sv(k), sv(x)) for k, x in s.env.items() if k[0] in ('f', 'g') and k[-1] != 'm_mutex'))
            R.count('creations')
            iv = s.env.get(('f', T, idf))
            gs = [x for x in subterms(iv) if x[0] == 'g'] if iv else []
            if not gs: V('ctor-id', f, 'a new session does not take its identity from the process-wide counter'); continue
            counter = gs[0]
            a = offset(iv, counter); k = offset(s.env.get(counter, counter), counter)
            if a is None: V('ctor-id', f, 'the identity of a new session is not the counter value itself (%s)' % sv(iv)); continue
            if k is None or k < 1: V('ctor-adv', f, 'a path creates a session without advancing the identity counter', [sc(c) for c in s.conds]); continue
            offs.add((a, k))
            if not 0 <= a <= k: V('ctor-id', f, 'identities of consecutive sessions overlap')
            c = s.env.get(('f', T, clf))
            if c != I0: V('ctor-close', f, 'a new session does not start open')
            for x in fields:
                R.ob(('ctorfield', x))
                if s.env.get(('f', T, x), ('undef',))[0] == 'undef': V('ctor-unset', f, 'a new session leaves %s unset' % x)
        if len(set(a for a, k in offs)) > 1 and len(offs) > 1: V('ctor-id', f, 'different ways to create a session number it differently')
        if counter is not None:
            gt = [x['t'] for x in rec['statics'] if counter[1].endswith('::' + x['n'])]
            it = [x['t'] for x in rec['fields'] if x['n'] == idf]
            R.ob('width', 'identity types %s / %s / %s' % (gt, it, idt))
            at = bool(gt) and ('atomic' in gt[0])
            w = set(strip_t(t) for t in ([] if at else gt) + it + [idt])
            if len(w) > 1: V('width', f, 'the identity is stored or reported in a narrower type than the counter (%s): identities repeat' % ', '.join(sorted(w)))
            # one critical section around every access of the counter
            g2 = graph(P, f)
            acc = [i for i in g2.instrs if i.op == 'acc' and i.a == counter]
            R.ob('atomic'); R.count('counter_accesses', len(acc))
            if not (at and len(acc) == 1):
                lf = LockFlow(g2).run()
                common = None
                for i in acc:
                    for ts, facts in lf.at(i):
                        h = frozenset((e[0], e[1]) for e in ts if not e[1].startswith('-'))
                        common = h if common is None else common & h
                if not common: V('lock', f, 'the counter is advanced and read without one lock held throughout: two sessions can get the same identity')
    R.need('creations', 1); R.need('observers', 2)
    if counter is None: return R
    # --- who writes
    for f in P.fns.values():
        cls = f.cls == S
        touches = [n for n in f.nodes if (n.get('k') == 'ref' and n.get('qn') == counter[1]) or (n.get('k') == 'mem' and n.get('cls') == S and n.get('n') in (idf, clf))]
        if not touches: continue
        R.functions.add(f.key)
        g = graph(P, f, inline=False)
        for i in g.instrs:
            ws = []
            if i.op in ('assign', 'init') and i.a[0] is not None: ws.append((i.a[0], i.a[1]))
            if i.op == 'call':
                for k, a in enumerate(i.a[2]):
                    pt = (i.node.get('pt') or [''] * 99)[k] if k < len(i.node.get('pt') or []) else ''
                    if a[0] == 'addr': ws.append((a[1], None))
                    elif pt.endswith('&') and not pt.startswith('const ') and a[0] in ('f', 'g'): ws.append((a, None))
            for l, v in ws:
                if l == counter:
                    R.ob(('w', f.key, i.n), 'counter written at %s' % i.loc())
                    if not (cls and f.raw['ctor'] and not f.params):
                        if any(c.cls == S and c.raw['ctor'] and not c.params for c, n in f.callers) and cls: continue
                        V('counter|' + f.name, f, '%s changes the identity counter' % short(f.name), [i.loc()])
                elif l[0] == 'f' and l[2] in (idf, clf) and owner_is(i, l):
                    R.ob(('w', f.key, i.n), '%s written at %s' % (l[2], i.loc()))
                    if f.raw['ctor'] and cls: continue
                    if f.short == 'operator=' and cls: continue
                    if l[2] == clf and v is not None and v[0] == 'i' and v[1]: continue
                    if cls and f.callers and all(c.cls == S and (c.raw['ctor'] or c.short == 'operator=') for c, n in f.callers): continue
                    V('write|%s|%s' % (f.name, l[2]), f, '%s changes the %s of an existing session' % (short(f.name), 'identity' if l[2] == idf else 'closed mark'), [i.loc()])
    # --- copies
    for f in meth('Session', lambda f: f.raw['ctor'] and f.params) + meth('operator='):
        g, v = table(P, f)
        src = [p for p in f.params if S in p['t']]
        if not src: continue
        p = ('v', f.tu, src[0]['d'], 0, src[0]['n'])
        for ts, s, r in v.exits():
            R.count('copies')
            selfc = any(c[0] == '==' and pol and T in c[1:] for c, pol in s.conds)
            for x in fields:
                R.ob(('copy', f.key, x), 'copy of %s by %s' % (x, f.name))
                L = ('f', T, x)
                if selfc and L not in s.env: continue
                if s.env.get(L) != ('f', p, x):
                    V('copy|%s|%s' % (f.key, x), f, 'copying a session does not carry over %s' % x, [sc(c) for c in s.conds])
    # --- closing
    for f in meth('close'):
        g, v = table(P, f)
        for ts, s, r in v.exits():
            R.ob('close'); R.count('closings')
            x = s.env.get(('f', T, clf))
            known = any(c == ('==', ('f', T, clf), I0) and not pol for c, pol in s.conds)
            if not (x is not None and x[0] == 'i' and x[1]) and not known: V('close', f, 'closing a session does not mark it closed on every path')
            if ('f', T, idf) in s.env: V('close-id', f, 'closing a session changes its identity')
    # --- order and equality
    for n in ('operator<', 'operator==', 'operator!='):
        for f in meth(n):
            if len(f.params) != 1: continue
            g, v = table(P, f)
            p = ('v', f.tu, f.params[0]['d'], 0, f.params[0]['n'])
            a, b = ('f', T, idf), ('f', p, idf)
            o = outcomes(v.exits(), a, b)
            R.ob(n, n); R.count('comparisons')
            one, zero = {('i', 1)}, {('i', 0)}
            if o is None: V(n, f, 'comparing sessions (%s) looks at more than the identity' % n)
            elif n == 'operator<' and not (o['eq'] == zero and ((o['lt'] == one and o['gt'] == zero) or (o['gt'] == one and o['lt'] == zero))):
                V(n, f, 'the order of sessions is not a strict order of their identities: %s' % {k: [sv(x) for x in y] for k, y in o.items()})
            elif n == 'operator==' and not (o['eq'] == one and o['lt'] == zero and o['gt'] == zero): V(n, f, 'sessions compare equal without having the same identity, or differ with it')
            elif n == 'operator!=' and not (o['eq'] == zero and o['lt'] == one and o['gt'] == one): V(n, f, 'sessions compare unequal although they have the same identity')
    R.need('comparisons', 2)
    package(P, R, V, T)
    connection(P, R, V)
    keyed(P, R, V, T)
    return R

def owner_is(i, l):
    nd = i.ctx.fn.nodes[i.n] if i.n is not None and 0 <= i.n < len(i.ctx.fn.nodes) else {}
    if i.op == 'init': return i.ctx.fn.cls == S
    for n in i.ctx.fn.nodes:
        if n.get('k') == 'mem' and n.get('n') == l[2] and n.get('cls') == S: return True
    return False

def package(P, R, V, T):
    rec = P.recs.get(PKG)
    if not rec: return
    sf = [f['n'] for f in rec['fields'] if strip_t(f['t']) == S]
    R.ob('pkgfield')
    if not sf: V('pkg-field', None, 'a package no longer carries a session of its own'); return
    for f in P.methods_of[PKG]:
        R.functions.add(f.key)
        sp = [p for p in f.params if strip_t(p['t']) == S]
        g, v = table(P, f)
        for x in sf:
            L = ('f', T, x)
            for ts, s, r in v.exits():
                w = s.env.get(L)
                R.ob(('pkg', f.key), 'session of a package in %s' % f.name)
                if f.raw['ctor'] and sp:
                    R.count('package_ctor')
                    p = sp[0]
                    if w != ('v', f.tu, p['d'], 0, p['n']): V('pkg-ctor|' + f.key, f, 'a package made for a session does not carry that session')
                elif f.raw['ctor'] and f.params and PKG in f.params[0]['t']:
                    p = f.params[0]
                    if w != ('f', ('v', f.tu, p['d'], 0, p['n']), x): V('pkg-copy|' + f.key, f, 'a copy of a package carries another session')
                elif not f.raw['ctor'] and not f.raw['dtor'] and (w is not None or any(prefixed(k, L) for k in s.env)):
                    V('pkg-write|' + f.name, f, '%s replaces the session a package carries' % short(f.name))
                if f.short == 'session' and not f.params:
                    R.count('package_session')
                    if r is None or (r != L and r != ('f', T, x) and not (r[0] == 'd' and r[1] == T)): V('pkg-get|' + f.key, f, 'a package reports a session that is not the one it was made for')
    R.need('package_ctor', 1); R.need('package_session', 1)

def connection(P, R, V):
    """client connections: every package made for a connection carries the connection's own session"""
    for c, rec in P.recs.items():
        if c == PKG or not rec.get('own'): continue
        if not any('Z_Assoc' in b for b in rec.get('bases', [])): continue
        sf = [f['n'] for f in rec['fields'] if strip_t(f['t']) == S]
        if not sf: continue
        for f in P.methods_of[c]:
            g = graph(P, f)
            for i in g.instrs:
                if i.op == 'call' and i.node['k'] == 'ctor' and i.node.get('cls') == PKG and i.a[2]:
                    R.ob(('conn', f.key, i.n), 'package for a client connection at %s' % i.loc()); R.count('connection_packages')
                    a = i.a[2][0]
                    if a[0] != 'f' or a[2] not in sf or a[1][0] != 'this':
                        V('conn|' + f.name, f, '%s makes a package that does not carry the session of the connection' % short(f.name), [i.loc()])
                if i.op == 'assign' and i.a[0] is not None and i.a[0][0] == 'f' and i.a[0][2] in sf and i.a[0][1][0] == 'this':
                    R.ob(('connw', f.key, i.n))
                    V('connw|' + f.name, f, '%s replaces the session of a client connection' % short(f.name), [i.loc()])
    R.need('connection_packages', 2)

class MapFlow(ValFlow):
    """ts = what has been done to the table for the key: '' / 'set' / 'erased'"""
    key = None
    def start(self): return ''
    def event(self, i, ts, st):
        if i.op == 'call' and i.node.get('op') == '=' and i.a[1] is not None and i.a[1][0] == 'x' and st.val(i.a[1][2]) == self.key: ts = 'set'
        if i.op == 'call' and i.ctx.calls.get(i.n) is None and i.a[1] is not None:
            sh = i.a[0].split('::')[-1]
            if sh == 'erase' and i.a[2] and st.val(i.a[2][0]) == self.key: ts = 'erased'
            elif sh == 'erase' and i.a[2]:
                v = st.val(i.a[2][0])
                if v[0] == 'c' and callfn(v) == 'find' and v[3] == self.key: ts = 'erased'
            if sh in ('insert', 'emplace', 'insert_or_assign') and any(contains(st.val(x), self.key) for x in i.a[2]):
                # an insertion keeps what is there already
                absent = any(p and c[0] == '==' and any(callfn(x) == 'end' for x in c[1:]) and any(callfn(x) == 'find' and contains(x, self.key) for x in c[1:]) for c, p in st.conds)
                if sh == 'insert_or_assign' or ts == 'erased' or absent: ts = 'set'
        if i.op == 'assign' and i.a[0] is not None and i.a[0][0] == 'x' and st.val(i.a[0][2]) == self.key: ts = 'set'
        yield ts

def keyed(P, R, V, T):
    """the table template that keeps state per session: create, drop and look up use the session given"""
    for f in P.fns.values():
        if not (f.cls or '').startswith('metaproxy_1::session_map') or f.raw['ctor'] or f.short.startswith('operator'): continue
        sp = [p for p in f.params if strip_t(p['t']) == S]
        if not sp: continue
        R.functions.add(f.key); R.count('keyed')
        g = graph(P, f, nobind=True)
        v = MapFlow(g); v.key = ('v', f.tu, sp[0]['d'], 0, sp[0]['n'])
        v.run()
        for ts, s, r in v.exits():
            R.ob(('keyed', f.key), '%s uses the session it is given' % f.name)
            if f.short == 'create' and ts != 'set': V('keyed|create', f, 'state created for a session is not kept under that session', [sc(c) for c in s.conds])
            if f.short == 'release' and ts != 'erased' and not any(p and c[0] == '==' and any(callfn(x) == 'end' for x in c[1:]) for c, p in s.conds):
                V('keyed|release', f, 'dropping the state of a session does not remove that session')
            if f.short == 'exist':
                fc = [(c, p) for c, p in s.conds if c[0] == '==' and any(x[0] == 'c' and callfn(x) == 'find' and x[3] == v.key for x in c[1:]) and any(callfn(x) == 'end' for x in c[1:])]
                cc = [(c, p) for c, p in s.conds if c[0] == '==' and any(x[0] == 'c' and callfn(x) == 'count' and v.key in x for x in c[1:])]
                if not (fc or cc) or any((r == I0) != p for c, p in fc + cc): V('keyed|exist', f, 'whether state exists for a session is not decided by looking that session up')
