"""C28: configuration elements, attributes, texts, booleans and numbers are recognised and read exactly."""
from mp.common import *
from mp.val import *
from mp.report import Result
TECHNIQUE = 'value-numbering dataflow: decision table of each XML access helper compared with its reference table, path by path; loop recurrences of the traversals'
X = 'metaproxy_1::xml::'
NS = 'http://indexdata.com/metaproxy'
TEXT, ELEM = 3, 1

def glob_lit(P, t):
    """value of a constant global string"""
    if t[0] == 'g':
        for k, g in P.globals.items():
            if (k == t[1] or (isinstance(k, tuple) and k[-1] == t[-1]) or g.get('name') == t[-1]):
                if 'const' in g['t']:
                    s = [n['v'] for n in g.get('nodes', []) if n.get('k') == 'str']
                    if len(s) == 1: return ('s', s[0])
    return t

def subst(P, t):
    if isinstance(t, tuple):
        if t and t[0] == 'g': return glob_lit(P, t)
        return tuple(subst(P, x) if isinstance(x, tuple) else x for x in t)
    return t

def F(b, n): return ('f', b, n)

class Ask:
    """oracle for a reference table: answers from the conditions of a path, explores both when they do not say"""
    def __init__(self, P, st):
        self.st = VS({}, frozenset((subst(P, a), p) for a, p in st.conds))
    def run(self, ref):
        """set of reference outcomes compatible with the path"""
        out = set(); todo = [()]
        while todo:
            ch = list(todo.pop()); pos = [0]; s = [self.st]; fork = []
            def ask(v, default=None):
                r = s[0].truth_v(v)
                if r is not None: return r
                if pos[0] < len(ch): r = ch[pos[0]]
                else:
                    r = True; ch.append(True); fork.append(tuple(ch[:pos[0]]) + (False,))
                pos[0] += 1
                l = s[0].assume(v, r)
                s[0] = l[0]
                return r
            out.add(ref(ask)); todo += fork
            if len(out) > 50 or len(todo) > 4000: raise AnalysisError('reference table too large')
        return out

def eq(a, b): return ('b', '==', a, b)
def streq(a, b): return ('b', '==', ('c', 'strcmp', None, a, b), I0)

def run(P, tier):
    R = Result('every path of each helper yields what the reference table yields for its conditions; each traversal starts at the first child/sibling, advances to the next, and stops exactly at the node sought; each attribute is stored in the slot whose name matched, else refused')
    R.assumptions = ['libxml2 node lists are well formed', 'texts are compared as C strings']
    def fns(n, np=None):
        l = [f for f in P.fns.values() if f.name == X + n and (np is None or len(f.params) == np)]
        for f in l: R.functions.add(f.key); R.count('helpers')
        return l
    def V(k, f, msg, detail=()): R.violation('C28|' + k, f.loc(), msg, list(detail))
    def table(f, **kw):
        v = ValFlow(graph(P, f, nobind=True, **kw)).run()
        if v.collapsed: raise AnalysisError('decision table of %s too large' % f.name)
        return v
    def par(f, k):
        p = f.params[k]
        return ('v', f.tu, p['d'], 0, p['n'])
    def outcomes(v):
        for ts, s, r in v.exits(): yield s, r
        for ts, s in v.at(v.g.throwexit): yield s, 'throw'
    def against(f, ref, same, what):
        """same(r, o): the value r a path returns agrees with the reference outcome o"""
        v = table(f)
        for s, r in outcomes(v):
            R.ob((f.key, s.key()[1], r), '%s: %s -> %s' % (f.short, ' && '.join(sc(c) for c in s.conds), sv(r) if r else r)); R.count('paths')
            for o in Ask(P, s).run(ref):
                if not same(r, o, s):
                    V('%s|%d' % (f.short, len(f.params)), f, '%s: a path gives %s where %s is due' % (what, sv(r) if r else 'nothing', o if isinstance(o, str) else sv(o)), [' && '.join(sc(c) for c in s.conds)])
        return v
    def boolean(r, o, s): return r == o
    # --- names of elements and attributes
    def elem(n, ns, nm):
        def ref(ask):
            if not ask(n) or not ask(eq(F(n, 'type'), ('i', ELEM))) or not ask(F(n, 'ns')): return False
            if not ask(F(F(n, 'ns'), 'href')): return False
            return ask(streq(ns, F(F(n, 'ns'), 'href'))) and ask(streq(nm, F(n, 'name')))
        return ref
    def attr(n, ns, nm):
        def ref(ask):
            if not ask(streq(nm, F(n, 'name'))): return False
            if ask(('c', 'std::string::empty', ns)): return True
            if not ask(F(n, 'ns')) or not ask(F(F(n, 'ns'), 'href')): return False
            return ask(streq(ns, F(F(n, 'ns'), 'href')))
        return ref
    def as_is(ref): return lambda ask: ('i', 1) if ref(ask) else ('i', 0)
    def as_check(ref): return lambda ask: ('i', 1) if ref(ask) else 'throw'
    for f in fns('is_element', 3): against(f, as_is(elem(par(f, 0), par(f, 1), par(f, 2))), boolean, 'an element is recognised by kind, namespace and name')
    for f in fns('is_element_mp', 2): against(f, as_is(elem(par(f, 0), ('s', NS), par(f, 1))), boolean, 'an element is recognised by kind, namespace and name')
    for f in fns('check_element_mp', 2): against(f, as_check(elem(par(f, 0), ('s', NS), par(f, 1))), boolean, 'an unexpected element is refused')
    for f in fns('is_attribute', 3): against(f, as_is(attr(par(f, 0), par(f, 1), par(f, 2))), boolean, 'an attribute is recognised by namespace and name')
    for f in fns('check_attribute', 3): against(f, as_check(attr(par(f, 0), par(f, 1), par(f, 2))), boolean, 'an unexpected attribute is refused')
    # --- booleans and numbers
    def first_text(ask, n):
        if ask(n) and not ask(eq(F(n, 'type'), ('i', TEXT))): n = F(n, 'children')
        if ask(n) and ask(eq(F(n, 'type'), ('i', TEXT))) and ask(F(n, 'content')): return F(n, 'content')
        return None
    for f in fns('get_bool', 2):
        n, d = par(f, 0), par(f, 1)
        def ref(ask):
            c = first_text(ask, n)
            if c is None: return ('i', 1) if ask(d) else ('i', 0)
            return ('i', 1) if ask(streq(c, ('s', 'true'))) or ask(streq(c, ('s', '1'))) else ('i', 0)
        against(f, ref, boolean, 'a boolean is true exactly for "true" and "1", the default only without text')
    for f in fns('get_int', 2):
        n, d = par(f, 0), par(f, 1)
        def ref(ask):
            c = first_text(ask, n)
            return d if c is None else ('num', c)
        def same(r, o, s):
            if o[0] != 'num': return r == o
            while r is not None and r[0] == 'c' and r[1].startswith('narrow'): r = r[2]
            if r is None or r[0] not in ('c', 'call'): return False
            fn = r[1] if r[0] == 'c' else r[3]
            a = [strip_str(x) for x in (r[3:] if r[0] == 'c' else r[5:])]
            if fn.split('::')[-1] == 'atoi': return a[:1] == [o[1]]
            return fn.split('::')[-1] in ('strtol', 'atol', 'stoi') and a[:1] == [o[1]] and (len(a) < 3 or a[2] == ('i', 10))
        against(f, ref, same, 'a number is the one written, the default only without text')
    # --- traversals
    def walks(v):
        """{head: {pointer term: ([entry (value, conds)], [back (value, conds)])}} of loops that step through .next"""
        out = {}
        for (h, t), srcs in v.phis.items():
            if t[0] not in ('v',): continue
            ph = ('phi', h, t)
            back = [(x, c) for (src, x, c) in srcs if (src, h) in v.back]
            if back and any(x == F(ph, 'next') or x[0] == 'f' and x[2] == 'next' for x, c in back):
                out.setdefault(h, {})[t] = ([(x, c) for (src, x, c) in srcs if (src, h) not in v.back], back)
        return out
    def has(P, conds, val):
        return VS({}, conds).truth_v(val)
    for nm, start in (('jump_to_children', 'children'), ('jump_to_next', 'next'), ('jump_to', None)):
        for f in fns(nm, 2):
            v = table(f)
            n, ty = par(f, 0), par(f, 1)
            st0 = F(n, start) if start else n
            phis = {}
            for h, d in walks(v).items():
                for t, (ent, back) in d.items():
                    ph = ('phi', h, t)
                    # the node looked at in a round is the one arrived at, or (test at the end) the one after it
                    best = None
                    for cand in (ph, F(ph, 'next')):
                        bad = []
                        for x, c in ent:
                            R.ob((f.key, 'entry', x))
                            x0 = x if cand == ph else F(x, 'next')
                            # a peeled first test is fine: the second candidate follows a first one that did not match
                            if x0 == st0 or x0 == F(st0, 'next') and has(P, c, eq(F(st0, 'type'), ty)) is False: continue
                            bad.append(('start', '%s starts looking at %s' % (nm, sv(x0)), ()))
                        for x, c in back:
                            R.ob((f.key, 'back', x, c))
                            if x != F(ph, 'next'): bad.append(('step', '%s goes on to %s' % (nm, sv(x)), ()))
                            elif has(P, c, eq(F(cand, 'type'), ty)) is not False: bad.append(('skip', '%s can pass over a node of the kind sought' % nm, [' && '.join(sc(k) for k in c)]))
                        if best is None or len(bad) < len(best[1]): best = (cand, bad)
                    R.count('steps', len(ent) + len(back))
                    phis[h] = best[0]
                    for k, msg, det in best[1]: V(nm + '|' + k, f, msg, det)
            for s, r in outcomes(v):
                R.ob((f.key, 'ret', s.key()[1], r)); R.count('paths')
                if r == 'throw' or r is None: V(nm + '|throw', f, '%s does not always answer' % nm); continue
                cands = [st0] + list(phis.values())
                if r == I0:
                    if not any(has(P, s.conds, c) is False for c in cands + ([n] if start else [])): V(nm + '|none', f, '%s reports no node although one may be left' % nm, [' && '.join(sc(k) for k in s.conds)])
                elif r in cands:
                    if has(P, s.conds, r) is False: continue
                    if has(P, s.conds, eq(F(r, 'type'), ty)) is not True: V(nm + '|kind', f, '%s can report a node of another kind' % nm, [' && '.join(sc(k) for k in s.conds)])
                else: V(nm + '|result', f, '%s reports %s' % (nm, sv(r)))
    # --- text of an element or attribute
    for f in fns('get_text', 1):
        v = table(f)
        n = par(f, 0)
        isattr = 'Attr' in f.params[0]['t']
        def base(conds):
            b = F(n, 'children') if isattr else n
            e = has(P, conds, b)
            if e is False: return {b, I0}
            ty = has(P, conds, eq(F(b, 'type'), ('i', TEXT)))
            return {b} if ty is True else {F(b, 'children')} if ty is False and e is True else set()
        accs = {}
        for h, d in walks(v).items():
            for t, (ent, back) in d.items():
                ph = ('phi', h, t)
                acc = [k for k in v.phis if k[0] == h and k[1] != t and any(x[0] == 's' for (src, x, c) in v.phis[k] if (src, h) not in v.back)]
                for x, c in ent:
                    R.ob((f.key, 'entry', x, c)); R.count('steps')
                    if x not in base(c): V('get_text|start|%s' % isattr, f, 'the text of %s is taken from %s' % ('an attribute' if isattr else 'an element', sv(x)), [' && '.join(sc(k) for k in c)])
                for x, c in back:
                    R.ob((f.key, 'back', x, c)); R.count('steps')
                    if x != F(ph, 'next'): V('get_text|step', f, 'the text is collected from %s next' % sv(x))
                for k in acc:
                    ap = ('phi', h, k[1]); accs[h] = (ap, ph)
                    for (src, x, c) in v.phis[k]:
                        R.ob((f.key, 'acc', x, c)); R.count('steps')
                        if (src, h) not in v.back:
                            if x != ('s', ''): V('get_text|init', f, 'the text does not start empty (%s)' % sv(x))
                            continue
                        ty = has(P, c, eq(F(ph, 'type'), ('i', TEXT)))
                        good = ('b', '+', ap, F(ph, 'content'))
                        if x == good and ty is True: continue
                        if x == ap and (ty is False or has(P, c, F(ph, 'content')) is False): continue
                        V('get_text|acc', f, 'collecting text: %s for a %s node' % (sv(x), 'text' if ty else 'non-text' if ty is False else 'possibly non-text'), [' && '.join(sc(y) for y in c)])
                for ts, s, i in v.leaves.get(h, []):
                    if has(P, s.conds, ph) is not False: V('get_text|stop', f, 'collecting text stops before the last node', [' && '.join(sc(y) for y in s.conds)])
        for s, r in outcomes(v):
            R.ob((f.key, 'ret', s.key()[1])); R.count('paths')
            if r == 'throw' or r is None: V('get_text|throw', f, 'reading a text does not always answer'); continue
            if r == ('s', ''):
                b = F(n, 'children') if isattr else n
                if has(P, s.conds, b) is False or has(P, s.conds, n) is False: continue
            if not any(r == a for a, ph in accs.values()): V('get_text|result', f, 'the text reported is %s' % sv(r))
    # --- attributes of an element
    for f in fns('parse_attr', 3):
        v = table(f)
        node, names, values = par(f, 0), par(f, 1), par(f, 2)
        w = walks(v)
        heads = [(h, t) for h, d in w.items() for t, (ent, back) in d.items() if any(x == F(node, 'properties') for x, c in ent)]
        if len(heads) != 1: V('attr|walk', f, 'the attributes of an element are not walked from first to last'); continue
        h, t = heads[0]; ph = ('phi', h, t)
        for x, c in w[h][t][0]:
            if x != F(node, 'properties'): V('attr|start', f, 'attributes are read from %s' % sv(x))
        def entry_zero(K):
            """index that is 0, or a counter from 0 by 1 whose increments saw a different, existing name"""
            if K == I0: return True
            if K[0] != 'phi': return False
            for (src, x, c) in v.phis.get((K[1], K[2]), ()):
                if (src, K[1]) in v.back:
                    if x != ('b', '+', K, ('i', 1)): return False
                    if has(P, c, ('x', names, K)) is not True: return False
                elif x != I0: return False
            return True
        def value_of(x, c):
            """the text of the attribute"""
            ch = F(ph, 'children')
            if x == F(ch, 'content'): return has(P, c, ch) is True and has(P, c, eq(F(ch, 'type'), ('i', TEXT))) is True
            if x == ('s', ''): return has(P, c, ch) is False or has(P, c, eq(F(ch, 'type'), ('i', TEXT))) is False
            if x[0] == 'phi':   # collected by get_text
                return v.g.instrs[x[1]].ctx.fn.name == X + 'get_text'
            return False
        rounds = 0
        for ts, s, i in v.backs[h]:
            R.ob((f.key, 'round', s.key())); R.count('rounds'); rounds += 1
            nx = s.val(t)
            if nx != F(ph, 'next'): V('attr|step', f, 'after an attribute %s is looked at' % sv(nx))
            K = [a for a in (k[1:] for k, p in s.conds if p and k[0] == '==') if F(ph, 'name') in [strip_str(y) for y in a]]
            K = [y for a in K for y in a if y[0] == 'x' and y[1] == names]
            if not K: V('attr|refuse', f, 'an attribute whose name is not in the list is let through', [' && '.join(sc(k) for k in s.conds)]); continue
            k = K[0][2]
            if not entry_zero(k): V('attr|search', f, 'the search for the attribute name does not try the names from the first on')
            got = s.env.get(('x', values, k))
            if got is None or not value_of(strip_str(got), s.conds):
                V('attr|slot', f, 'the value of an attribute does not end up in the slot of its name (%s)' % (sv(got) if got else 'not stored'), [' && '.join(sc(c) for c in s.conds)])
        R.need('rounds', 1)
        thr = 0
        for s, r in outcomes(v):
            R.ob((f.key, 'out', s.key()[1], r)); R.count('paths')
            if r == 'throw':
                thr += 1
                bad = has(P, s.conds, ph) is True
                ends = [k for k, p in s.conds if p and k[0] == '==' and k[2] == I0 and k[1][0] == 'x' and k[1][1] == names and k[1][2] != I0 or (p and k[0] == '==' and k[1] == ('x', names, I0) and k[2] == I0)]
                ok = bad and any(entry_zero(k[1][2]) and mismatch(P, v, names, k[1][2], F(ph, 'name')) for k in ends)
                if not ok: V('attr|throw', f, 'an attribute is refused although its name may be in the list', [' && '.join(sc(c) for c in s.conds)])
            elif has(P, s.conds, node) is not False and has(P, s.conds, ph) is not False:
                V('attr|early', f, 'reading attributes ends before the last one', [' && '.join(sc(c) for c in s.conds)])
        if not thr: V('attr|refuse', f, 'no unknown attribute is ever refused')
        # slots start empty
        cleared = False
        for h2 in v.heads:
            if h2 == h: continue
            for ts, s, i in v.backs[h2]:
                for k, x in s.env.items():
                    if k[0] == 'x' and k[1] == values and x == ('s', '') and k[2][0] == 'phi' and k[2][1] == h2 and entry_zero(k[2]): cleared = True
        R.ob((f.key, 'cleared'))
        if not cleared: V('attr|clear', f, 'values of attributes that are absent are not emptied')
    # --- routes
    for f in [x for np in (1, 2) for x in fns('get_route', np)]:
        v = table(f, inline=False)
        node = par(f, 0)
        for s, r in outcomes(v):
            R.ob((f.key, 'route', s.key()[1], r)); R.count('paths')
            if r == 'throw': continue
            calls = [i for i in v.g.instrs if i.op == 'call' and i.a[0] == X + 'parse_attr']
            if len(calls) != 1 or calls[0].a[2][0] != node: V('route|read', f, 'the route of an element is not read from its attributes'); continue
            na, va = calls[0].a[2][1], calls[0].a[2][2]
            slots = {}
            for k, x in s.env.items():
                if k[0] == 'x' and k[1] == na and k[2][0] == 'i': slots[k[2][1]] = glob_lit(P, x)
            want = ['route', 'auth'][:len(f.params)]
            got = sorted(x[1] for x in slots.values() if x[0] == 's')
            if got != sorted(want): V('route|names|%d' % len(f.params), f, 'attributes allowed beside a route: %s' % ', '.join(got))
            idx = {x[1]: k for k, x in slots.items() if x[0] == 's'}
            def is_slot(x, n):
                return x is not None and x[0] == 'x' and x[2] == ('i', idx.get(n)) and (x[1] == va or x[1][0] == 'out' and x[1][3] == va)
            if not is_slot(r, 'route'): V('route|value|%d' % len(f.params), f, 'the route reported is %s' % (sv(r) if r else r))
            if len(f.params) == 2:
                a = s.env.get(par(f, 1))
                if not is_slot(a, 'auth'): V('route|auth', f, 'the authentication information reported is %s' % (sv(a) if a else 'not set'))
    # --- elements that must be empty
    for f in fns('check_empty', 1):
        v = table(f)
        node = par(f, 0)
        good = {}
        for h, d in walks(v).items():
            for t, (ent, back) in d.items():
                if any(x != F(node, 'children') for x, c in ent): continue
                ph = ('phi', h, t)
                if all(x == F(ph, 'next') and has(P, c, eq(F(ph, 'type'), ('i', ELEM))) is False for x, c in back): good[h] = ph
        for s, r in outcomes(v):
            R.ob((f.key, 'empty', s.key()[1], r)); R.count('paths')
            if r == 'throw':
                if not any(has(P, s.conds, ph) is True and has(P, s.conds, eq(F(ph, 'type'), ('i', ELEM))) is True for ph in good.values()):
                    V('empty|throw', f, 'an element without child elements is refused', [' && '.join(sc(c) for c in s.conds)])
            elif has(P, s.conds, node) is not False and has(P, s.conds, F(node, 'children')) is not False and not any(has(P, s.conds, ph) is False for ph in good.values()):
                V('empty|pass', f, 'an element with child elements is accepted where none is allowed', [' && '.join(sc(c) for c in s.conds)])
    R.need('helpers', 8)
    return R

def mismatch(P, v, names, K, name):
    """every step of the search over K saw a different name"""
    if K == I0: return True
    for (src, x, c) in v.phis.get((K[1], K[2]), ()):
        if (src, K[1]) in v.back and VS({}, c).truth_v(streq(name, ('x', names, K))) is not False: return False
    return True
