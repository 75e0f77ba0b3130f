"""C08: the parts of a protocol message are only used as the kind the message says it has."""
from mp.common import *
from mp.unions import union_of
from mp.report import Result
TECHNIQUE = 'path-sensitive must-facts dataflow over whole-program inlined control-flow graphs: discriminator value at every use of a member of a tagged union'

MAKERS = {'zget_APDU': 1, 'yaz_srw_get': 1, 'yaz_srw_get_pdu': 1, 'yaz_srw_get_pdu_e': 1}       # allocator -> argument that names the kind
GDUGET = 'yazpp_1::GDU::get'
NOEFFECT = {'get_size'}
ONEKIND = {'Z_SOAP'}       # the decoder of the library only hands out one kind together with success

UNIONS = {'u'}       # names of union fields

def member(t):
    """(base, member) of base.<union>.member"""
    if t[0] == 'f' and t[1][0] == 'f' and t[1][2] in UNIONS: return t[1][1], t[2]
    return None

def union_node(fn, n):
    nd = fn.nodes[n]
    if nd['k'] != 'mem' or not nd.get('c') or nd['c'][0] < 0: return None
    b = fn.nodes[nd['c'][0]]
    if b['k'] != 'mem': return None
    return union_of(b.get('t', ''))

class UnionFlow(Flow):
    MAXK = 64
    def __init__(self, g, inv, T, held):
        Flow.__init__(self, g)
        self.inv = inv; self.T = T; self.held = held
        self.flagvars = set(self.flagvars) | self.kinds()
    def kinds(self):
        """discriminators whose union has several members of the same type, and objects that are tested for
           presence together with their kind: outcomes are kept apart at joins"""
        out = set(); nulls = {}
        for i in self.g.instrs:
            if i.op == 'acc' and i.a[0] == 'f' and i.a[2] == 'which' and i.node.get('k') == 'mem':
                if self.alike(i.node.get('cls')): out.add(i.a)
                nulls[i.a[1]] = 1
        cnt = {}
        for i in self.g.instrs:
            if i.op == 'assume' and i.a[1]:
                t = i.a[0]
                while t[0] == '!': t = t[1]
                if t in nulls: cnt[t] = cnt.get(t, 0) + 1
        return out | set(t for t, n in cnt.items() if n > 1)
    def alike(self, cls):
        return cls in self.multi
    def base(self, i, facts):
        if i.op == 'call' and i.a[0].split('::')[-1] in NOEFFECT: return facts.kill(i.a[3])
        f = Flow.base(self, i, facts)
        if f is None: return None
        if i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            sh = fn.split('::')[-1]
            k = MAKERS.get(sh)
            if k is not None and k < len(args):
                v = facts.value(args[k])
                if v is not None: f = f.add([('eq', ('f', res, 'which'), v), ('ne', res, 0)])
            elif sh.startswith('z_get_HTTP_Re'):
                f = f.add([('eq', ('f', res, 'which'), 2 if 'Request' in sh else 3), ('ne', res, 0)])
            elif fn == 'yazpp_1::GDU::GDU' and len(args) == 1:
                pt = strip_t((i.node.get('pt') or [''])[0])
                got = ('c', GDUGET, res)
                if pt == 'Z_APDU *':
                    f = f.add([('eq', ('f', got, 'which'), 1)])
                    f = self.carry(f, facts, args[0], ('f', ('f', got, 'u'), 'z3950'))
                elif pt == 'Z_GDU *': f = self.carry(f, facts, args[0], got)
                else: f = self.carry(f, facts, args[0], res)
        elif i.op in ('assign', 'decl', 'init', 'ret') and i.a[0] is not None and i.a[1] is not None:
            f = self.carry(f, facts, i.a[1], i.a[0])
            m = member(i.a[0])
            if m is not None: f = f.add([('own', i.a[0], 1)])       # read back what was put there
            if i.a[0] in self.held and (i.a[1] not in self.T or self.known(i.a[1], facts)): f = f.add([('own', i.a[0], 1)])
        elif i.op == 'acc' and i.a[0] == 'f' and i.a[2] in self.inv:
            got = ('c', GDUGET, i.a)
            f = f.add([('eq', subst(rel, ('hole',), i.a), c) for rel, c in self.inv[i.a[2]]])
        return f
    def known(self, t, f):
        """the member is (or was, when it was fetched) of the kind its object says"""
        m = member(t); u = self.T[t]
        k = u['const'].get(m[1])
        if k is None: return True
        v = f.value(('f', m[0], 'which'))
        if v is None:      # what is left when every kind of another type is excluded
            w = f.alias(('f', m[0], 'which'))
            if all(any(('ne', y, x) in f.s for y in w) for n, x in u['const'].items() if u['types'].get(n) != u['types'].get(m[1])): return True
        return v is not None and any(x == v and u['types'].get(n) == u['types'].get(m[1]) for n, x in u['const'].items()) or any(('own', x, 1) in f.s for x in f.alias(t))
    def carry(self, f, before, src, dst):
        """what is known of the kinds inside src also holds inside dst"""
        gen = []
        for y in before.alias(src):
            if y[0] == 'i': continue
            for a in before.s:
                if a[0] in ('eq', 'ne') and a[1] != y and a[1][0] == 'f' and contains(a[1], y):
                    z = subst(a[1], y, dst)
                    if not contains(z, y) or contains(dst, y): gen.append((a[0], z, a[2]))
        return f.add(gen) if gen else f

def roots(P):
    return [r for r in runtime_roots(P) if r.raw.get('overn') or not [c for c, n in r.callers if c is not r]]

def outer(t, T, held):
    """the outermost union member (or variable that holds one) strictly below the access path t"""
    while t[0] in ('f', 'd', 'x'):
        t = t[1]
        if t in T or t in held: return t
    return None

def uses(i, T, held):
    """union members (access paths, or variables that hold them) that instruction i looks into, hands on or stores"""
    if i.op == 'acc' and i.n is not None:
        m = outer(i.a, T, held)
        if m is not None: yield m
        if i.a in T and not is_ptr(i.node.get('t', '')): yield i.a
    elif i.op == 'call' and i.ctx.calls.get(i.n) is None:
        for a in i.a[2]:
            if a in T or a in held: yield a
            elif a[0] == 'addr' and outer(a[1], T, held): yield outer(a[1], T, held)
    elif i.op == 'assign' and i.a[1] is not None and i.a[0] not in held:
        if i.a[1] in T or i.a[1] in held: yield i.a[1]

def multi_classes(P):
    out = set()
    for f in P.fns.values():
        for nd in f.nodes:
            if nd['k'] == 'mem' and nd.get('cls'):
                u = union_of(nd.get('t', ''))
                if u is not None: UNIONS.add(nd['n'])
                if u is not None and len(set(u['types'].values())) < len(u['types']): out.add(nd['cls'])
    return out

def copied(i, t, m, facts, T):
    """a member is only carried over, together with its kind, to another object of the same type"""
    if i.op != 'assign' or i.a[0] is None: return False
    l = i.a[0]; ml = member(l)
    if ml is None or ml[1] != m[1] or (l in T and T[l]['at'] != T[t]['at']): return False
    al = facts.alias(('f', ml[0], 'which'))
    return any(('f', x, 'which') in al for x in facts.alias(m[0]))

def param_rooted(t, g):
    while t[0] in ('f', 'd', 'x'): t = t[1]
    return t[0] == 'v' and t[3] == 0 and any(p['d'] == t[2] for p in g.root.params)

def run(P, tier):
    R = Result('every use of a member of a tagged union of the protocol library happens, on every path, with the discriminator of the same object known to name that member (or a member of the same type); fields that keep a message are judged by what is stored in them')
    R.assumptions = ['objects made by the protocol library carry the kind they were asked for', 'the argument of an exported helper that nothing in the proxy calls is of the kind the helper documents',
                     'distinct access paths do not alias']
    UnionFlow.multi = multi_classes(P)
    writes = {}; flows = []
    for r in roots(P):
        g = graph(P, r, cross=True)
        sites = []; keeps = []; T = {}
        for i in g.instrs:
            if i.op == 'acc' and i.n is not None:
                u = union_node(i.ctx.fn, i.n)
                if u is None or u['same'] or member(i.a) is None: continue
                if i.ctx.fn.nodes[i.node['c'][0]].get('cls') in ONEKIND: continue
                T[i.a] = u
        # local variables that keep a member under their own name (others stand for the path they were given)
        held = {}
        for i in g.instrs:
            if i.op in ('assign', 'decl', 'init') and i.a[0] is not None and i.a[0][0] == 'v' and i.a[1] in T and not (i.op == 'assign' and i.node and i.node.get('k') == 'call') and not (i.op == 'decl' and i.node and not is_ptr(i.node.get('t', ''))): held[i.a[0]] = T[i.a[1]]
        for i in g.instrs:
            for t in uses(i, T, held): sites.append((i, t))
            if i.op == 'assign' and i.a[0] is not None and i.a[0][0] == 'f' and i.node and 'GDU' in strip_t(target_type(i)): keeps.append(i)
        if not sites and not keeps: continue
        R.functions |= set(c.fn.key for c in g.ctxs); R.count('entry_points')
        fl = UnionFlow(g, {}, T, held).run()
        for i in keeps:
            for ts, f, k in fl.transfer(i):
                s = set((subst(a[1], i.a[0], ('hole',)), a[2]) for a in f.s if a[0] == 'eq' and a[1][0] == 'f' and a[1][2] == 'which' and contains(a[1], i.a[0]))
                writes[i.a[0][2]] = s if i.a[0][2] not in writes else writes[i.a[0][2]] & s
        flows.append((g, fl, sites, T, held))
    inv = {k: v for k, v in writes.items() if v}
    R.count('kept_messages', len(inv))
    for g, fl, sites, T, held in flows:
        bad = judge(g, fl, sites, T)
        if bad and inv and any(i.op == 'acc' and i.a[0] == 'f' and i.a[2] in inv for i in g.instrs):
            fl = UnionFlow(g, inv, T, held).run()
            bad = judge(g, fl, sites, T)
        for i, t in sites:
            R.ob((i.ctx.fn.key, i.n, t[-1]), 'use of %s at %s' % (t[-1], i.loc())); R.count('uses')
        for i, t, m, v in bad:
            if param_rooted(m[0], g) and not g.root.raw.get('overn') and not g.root.callers:
                R.count('documented_arguments'); continue
            R.violation('C08|%s|%s' % (i.ctx.fn.name, m[1]), i.loc(), '%s uses %s of %s without having established that it is of that kind%s' % (short(i.ctx.fn.name), m[1], show(m[0])[-60:],
                        '' if v is None else ' (it is known to be %s)' % T[t]['names'].get(v, v)), callstack(i) + fl.path(i, ()))
    R.need('entry_points', 10); R.need('uses', 200)
    return R

def target_type(i):
    fn = i.ctx.fn
    o = i.node.get('obj')
    if o is None or o < 0: o = i.node['c'][0] if i.node.get('c') else None
    return fn.nodes[o].get('t', '') if o is not None and o >= 0 else ''

def judge(g, fl, sites, T):
    def bad_at(i, t):
        for ts, f in fl.at(i):
            if t in T:
                if fl.known(t, f) or copied(i, t, member(t), f, T): continue
                return (i, t, member(t), f.value(('f', member(t)[0], 'which')))
            if ('own', t, 1) in f.s: continue
            d = f.defs().get(t)
            if d in T:
                if fl.known(d, f): continue
                return (i, d, member(d), f.value(('f', member(d)[0], 'which')))
            return (i, fl.held[t], None, None)
        return None
    reads = {}
    for i in g.instrs:
        if i.op == 'acc' and i.a in T: reads.setdefault(i.a, []).append(i)
    bad = []; memo = {}
    for i, t in sites:
        b = bad_at(i, t)
        if b is None: continue
        # the pointer may have been fetched while the kind was known
        if t in T:
            if t not in memo: memo[t] = any(bad_at(j, t) for j in reads[t])
            if not memo[t]: continue
        elif b[2] is None:
            src = [j for j in g.instrs if j.op in ('assign', 'decl', 'init') and j.a[0] == t and j.a[1] in T]
            b = (i, src[0].a[1], member(src[0].a[1]), None)
        bad.append(b)
    return bad
