"""C05: pooled backend sessions are used by one client at a time, returned only while usable, and shared only on an exact match."""
from mp.claims import *
from mp.report import Result
from rules.C04 import is_pool, created_here, claim_free
TECHNIQUE = 'path-sensitive ownership (typestate) analysis of the backend pool, with key-completeness analysis of the pool key'

PKG = 'metaproxy_1::Package'

class PoolClaim(ClaimFlow):
    """ts = (ownership, liveness of the connection 'ok'/'unk'/'dead', comparisons passed since the candidate was chosen)"""
    def __init__(self, *a):
        ClaimFlow.__init__(self, *a)
        self.use = []; self.exitbad = []
    def start(self): return ('f', 'ok', frozenset())
    def localpkg(self, t):
        t = root_of(t)
        while t[0] == 'c' and t[2] is not None: t = root_of(t[2])
        return t[0] == 'v' and not self.isroot(t)
    def isroot(self, t):
        return t[3] == 0 and any(p['d'] == t[2] for p in self.g.root.params)
    def step(self, i, ts, facts):
        own, live, m = ts
        if i.op == 'assume':
            out = []
            atoms_of(i.a[0], i.a[1], out, facts.defs())
            for a in out:
                if a[0] in ('eq', 'ne') and a[1][0] == 'f' and a[1][2] == 'm_close' and self.localpkg(a[1]):
                    v = a[2] if a[0] == 'eq' else (1 if a[2] == 0 else None)
                    if v is not None: live = 'dead' if v else 'ok'
                if a[0] == 'ne' and a[2] == 0:
                    nm = callname(self.g, a[1])
                    if nm and nm.endswith(('util::match', 'Yaz_Z_Query::match')): m = m | {nm}
        elif i.op == 'call':
            if i.a[0] == PKG + '::move' and i.a[1] is not None and self.localpkg(i.a[1]): live = 'unk'
            if self.is_table(i.a[1]) and i.a[0].split('::')[-1] in ('push_back', 'push_front', 'insert', 'emplace_back'):
                self.ev.append(('pool', i, (own, live), facts))
        elif i.op == 'assign' and i.a[0] is not None:
            nd = i.ctx.fn.nodes[i.n]
            if nd.get('op') in ('++', '--'): m = frozenset()
            src = None
            if nd.get('k') == 'call' and nd.get('op') == '=' and nd['c']: src = nd['c'][0]
            if src is not None and self.settype(i.ctx.fn.nodes[src].get('t', '')) and i.a[1] is not None and i.a[1][0] == 'd':
                self.use.append((i, m))
        n = len(self.ev)
        for o, f in ClaimFlow.step(self, i, own, facts):
            for k in range(n, len(self.ev)):
                e = self.ev[k]
                self.ev[k] = (e[0], e[1], (own, live), e[3])
            if o == 'h' and own != 'h' and claim_free(self, i, facts): live = 'ok'
            yield (o, live, m), f
    def settype(self, t):
        return is_smart(t) and any(s + '>' in t for s in self.sets)

SWEEP = ('erase', 'clear', 'pop_front', 'pop_back', 'remove', 'remove_if')
def exact_table(fl, t):
    return fl.is_table(t) and (fl.fc.get(t), t[2]) in fl.tables
def sweep_idle(i, facts, flag):
    if i.a[0].split('::')[-1] != 'erase': return False
    it = set()
    for a in i.a[2]: it |= {a} | set(facts.alias(a))
    for a in facts.s:
        if a[0] == 'eq' and a[2] == 0 and a[1][0] == 'f' and a[1][2] == flag and any(contains(a[1], x) for x in it if x[0] in ('v', 'r', 't')): return True
    return False

def callname(g, t):
    if t[0] == 't' and t[2] >= 0:
        nd = g.ctxs[t[1]].fn.nodes[t[2]]
        if nd.get('k') == 'call': return nd.get('fn', '')
    if t[0] == 'c': return t[1]
    if t[0] == 'r':
        return g.ctxs[t[1]].fn.name
    return None

def run(P, tier):
    R = Result('a pooled backend is claimed only when idle, released or removed on every path, pooled only while its connection is open; result sets are reused only after both database and query comparison; the pool key compares every part of the client identity')
    flags = busy_flags(P)
    for (cls, flag), wf in sorted(flags.items()):
        tables = tables_of(P, cls)
        if not tables or not is_pool(P, cls, tables): continue
        R.count('pools')
        # classes of objects a pooled object keeps lists of: result sets
        sets = set()
        for f in P.recs[cls]['fields']:
            for n in P.recs:
                if n != cls and n + '>' in f['t'] and is_container(f['t']): sets.add(n)
        for r in runtime_roots(P):
            g = graph(P, r)
            ev = []
            fl = PoolClaim(g, cls, flag, tables, ev); fl.sets = sets
            if not any(fl.flag_write(i) for i in g.instrs):
                # a sweep over the pool: entries in use stay
                if any(i.op == 'call' and exact_table(fl, i.a[1]) and i.a[0].split('::')[-1] in SWEEP for i in g.instrs):
                    fl.run(); R.functions.add(r.key)
                    for kind, i, st, facts in ev:
                        if kind != 'erase' or not exact_table(fl, i.a[1]): continue
                        R.count('sweeps')
                        R.ob(('sweep', i.ctx.fn.key, i.n), 'pooled %s dropped at %s only while idle' % (short(cls), i.loc()))
                        if not sweep_idle(i, facts, flag):
                            R.violation('C05|sweep|%s|%s' % (cls, i.ctx.fn.name), i.loc(), '%s drops a pooled backend that may be in use by a request' % short(i.ctx.fn.name), callstack(i))
                continue
            fl.run()
            R.functions.add(r.key); R.count('entry_points')
            for kind, i, st, facts in ev:
                own, live = st
                R.ob((kind, i.ctx.fn.key, i.n, tuple(c.id for c in [i.ctx])), '%s of %s at %s' % (kind, short(cls), i.loc()))
                if kind == 'claim':
                    R.count('claims')
                    if own == 'h':
                        R.violation('C05|double|%s|%s' % (cls, i.ctx.fn.name), i.loc(), '%s takes a pooled backend while this request already holds one' % short(i.ctx.fn.name), callstack(i))
                    elif not (claim_free(fl, i, facts) or created_here(g, i, facts)):
                        R.violation('C05|claim|%s|%s' % (cls, i.ctx.fn.name), i.loc(), '%s takes a pooled backend without having seen that it is idle' % short(i.ctx.fn.name), callstack(i))
                elif kind == 'pool':
                    R.count('pooled')
                    if live != 'ok':
                        R.violation('C05|pooldead|%s|%s' % (cls, i.ctx.fn.name), i.loc(), '%s pools a backend whose connection may be closed' % short(i.ctx.fn.name), callstack(i))
                    if own != 'h':
                        R.violation('C05|poolfree|%s|%s' % (cls, i.ctx.fn.name), i.loc(), '%s pools a new backend without marking it as used by this request' % short(i.ctx.fn.name), callstack(i))
                elif own == 'f':
                    R.violation('C05|foreign|%s|%s' % (cls, i.ctx.fn.name), i.loc(), '%s releases a pooled backend that this request does not hold' % short(i.ctx.fn.name), callstack(i))
                elif own in ('r', 'e'):
                    R.violation('C05|twice|%s|%s' % (cls, i.ctx.fn.name), i.loc(), '%s releases a pooled backend a second time: another session may have taken it' % short(i.ctx.fn.name), callstack(i))
                elif kind == 'clear':
                    R.count('releases')
                    if live != 'ok':
                        R.violation('C05|releasedead|%s|%s' % (cls, site(i)), i.loc(), '%s returns a backend to the pool although its connection may be closed' % short(i.ctx.fn.name), callstack(i))
                else: R.count('removals')
            for ts, facts in fl.at(g.exitnode):
                R.ob(('exit', r.key, ts[0]))
                if ts[0] == 'h':
                    R.violation('C05|leak|%s|%s' % (cls, r.name), r.loc(), '%s returns on some path while it still holds a pooled backend' % short(r.name), fl.path(g.exitnode, ts))
            for i, m in fl.use:
                R.ob(('reuse', i.ctx.fn.key, i.n), 'reuse of a result set at %s after %s' % (i.loc(), sorted(short(x) for x in m)))
                R.count('set_reuse')
                if not any(x.endswith('Yaz_Z_Query::match') for x in m):
                    R.violation('C05|reuse-query|%s' % i.ctx.fn.name, i.loc(), '%s reuses a result set without comparing the query' % short(i.ctx.fn.name), callstack(i))
                if not any(x.endswith('util::match') for x in m):
                    R.violation('C05|reuse-db|%s' % i.ctx.fn.name, i.loc(), '%s reuses a result set without comparing the databases' % short(i.ctx.fn.name), callstack(i))
    key_rule(P, R)
    R.need('pools', 1); R.need('claims', 1); R.need('releases', 1); R.need('removals', 1); R.need('set_reuse', 1); R.need('pooled', 1)
    R.need('key_fields', 2)
    return R

def site(i):
    """function and the functions through which it was reached"""
    out = [i.ctx.fn.short]; c = i.ctx.parent
    while c is not None:
        out.append(c.fn.short); c = c.parent
    return '<'.join(out)

def is_container(t):
    return any(x in t for x in ('std::map<', 'std::list<', 'std::vector<', 'std::set<'))

def key_rule(P, R):
    """user-defined map keys: operator< looks at every data field of both operands, copying copies every field, and the
       key of the backend pool is made of the client's authentication and other information"""
    for f in P.fns.values():
        if f.short != 'operator<' or not f.cls or len(f.params) != 1: continue
        rec = P.recs.get(f.cls)
        if not rec or not any(('map<' + f.cls) in x['t'] for r in P.recs.values() if r.get('own') for x in r['fields']): continue
        fields = [x['n'] for x in rec['fields'] if not x['t'].startswith(('odr *', 'struct odr', 'ODR'))]
        if f.cls.endswith('::Session'): continue
        g = graph(P, f)
        lhs = set(); rhs = set()
        for i in g.instrs:
            if i.op == 'acc' and i.node['k'] == 'mem' and i.node.get('cls') == f.cls:
                (lhs if i.a[1] == ('this', 0) else rhs).add(i.node['n'])
        R.functions.add(f.key)
        for n in fields:
            R.ob(('key', f.cls, n), 'key field %s::%s takes part in the order' % (short(f.cls), n)); R.count('key_fields')
            if n not in lhs or n not in rhs:
                R.violation('C05|key|%s|%s' % (f.cls, n), f.loc(), 'the order of %s ignores %s: sessions of different clients share a backend' % (short(f.cls), n))
        for c in P.methods_of[f.cls]:
            if not c.raw['ctor']: continue
            g2 = graph(P, c)
            w = set(i.a[0][2] for i in g2.instrs if i.op in ('assign', 'init') and i.a[0] is not None and i.a[0][0] == 'f' and i.a[0][1] == ('this', 0))
            for i in g2.instrs:
                if i.op == 'call':
                    for a in i.a[2]:
                        if a[0] == 'addr' and a[1][0] == 'f': w.add(a[1][2])
                        if a[0] == 'f': w.add(a[2])
            copy = c.params and f.cls in c.params[0]['t']
            for n in fields:
                R.ob(('keyctor', c.key, n))
                if n not in w:
                    R.violation('C05|keyinit|%s|%s' % (c.key, n), c.loc(), 'a constructor of %s leaves %s unset' % (short(f.cls), n))
            if copy:
                src = set(i.node['n'] for i in g2.instrs if i.op == 'acc' and i.node['k'] == 'mem' and i.node.get('cls') == f.cls and i.a[1] != ('this', 0))
                for n in fields:
                    if n not in src: R.violation('C05|keycopy|%s|%s' % (c.key, n), c.loc(), 'copying a %s does not carry over %s' % (short(f.cls), n))
            else:
                used = set(i.node['n'] for i in g2.instrs if i.op == 'acc' and i.node['k'] == 'mem' and i.node.get('cls') == 'Z_InitRequest')
                for n in ('idAuthentication', 'otherInfo'):
                    R.ob(('keysrc', c.key, n))
                    if n not in used: R.violation('C05|keysrc|%s|%s' % (f.cls, n), c.loc(), 'the pool key does not include the %s of the client' % n)
