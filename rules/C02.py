from mp.common import *
from mp.report import Result
from collections import defaultdict
import re
TECHNIQUE = 'lock-order graph and held-lock effect analysis over inlined control-flow graphs'
LEVEL = 'other'

# operations that can block for as long as a peer, a child process or another worker likes
BLOCKING = {
    'metaproxy_1::Package::move': 'hands the package to the next filter (network I/O)',
    'metaproxy_1::PackageMany::move': 'waits for all targets',
    'yazpp_1::SocketManager::processEvent': 'waits for the network',
    'ZOOM_event': 'waits for the network', 'ZOOM_connection_connect': 'connects',
    'ZOOM_connection_search': 'network', 'ZOOM_resultset_records': 'network',
    'waitpid': 'waits for a child process', 'wait': 'waits for a child process',
    'yaz_url_exec': 'HTTP exchange', 'connect': 'connects', 'cs_connect': 'connects', 'cs_get': 'network',
    'sleep': 'sleeps', 'usleep': 'sleeps', 'select': 'waits', 'poll': 'waits', 'poll_': 'waits',
    'boost::thread::join': 'waits for a thread', 'boost::thread_group::join_all': 'waits for threads',
    'system': 'runs a command', 'popen': 'runs a command', 'fgets': None,
}
BLOCKING = {k: v for k, v in BLOCKING.items() if v}

class LF(LockFlow):
    def __init__(self, g, rec):
        LockFlow.__init__(self, g); self.rec = rec
    def on_lock(self, i, ts, m, term, facts):
        self.rec.locks.append((i, m, term))
        for (v, hm, ht) in ts:
            if hm.startswith('-'): continue
            if hm == m:
                if ht == term or set(facts.alias(ht)) & set(facts.alias(term)): self.rec.selfs[(i.ctx.fn.key, i.n, m)] = (i, ht)
                else: self.rec.edges.setdefault((hm, m), i)
            else:
                self.rec.edges.setdefault((hm, m), i)
    def on_wait(self, i, ts, facts):
        lk = i.a[2][0] if i.a[2] else None
        other = []
        waited = None
        for e in ts:
            if e[1].startswith('-'): continue
            if lk is not None and self.same_lock(e[0], lk, facts): waited = e[1]
            else: other.append(e[1])
        self.rec.waits.append((i, waited, other))

class Rec: pass

def callees(P, n):
    k = n.get('key')
    out = []
    if k in P.fns: out.append(P.fns[k])
    if n.get('virt') and not n.get('qual'): out += P.overrides.get(k, [])
    return out

def closure(P, direct):
    """direct: fn key -> set of effects; adds the effects of everything a function may call (all overriders of a virtual call)"""
    eff = {k: set(v) for k, v in direct.items()}
    calls = {f.key: [c.key for n in f.nodes if n.get('k') in ('call', 'ctor', 'new') for c in callees(P, n)] for f in P.fns.values()}
    rev = defaultdict(set)
    for a, l in calls.items():
        for b in l: rev[b].add(a)
    work = list(eff)
    while work:
        b = work.pop()
        for a in rev[b]:
            x = eff.setdefault(a, set())
            if not eff[b] <= x:
                x |= eff[b]; work.append(a)
    return eff

SMART = ('boost::shared_ptr<', 'std::shared_ptr<', 'boost::scoped_ptr<', 'std::unique_ptr<')
def owned_elements(t):
    """classes whose objects a container of smart pointers may be the last owner of"""
    t = strip_t(t)
    if t.startswith(SMART) or '<' not in t or t.endswith(('*', '&', 'iterator')): return []
    if not t.startswith(('std::list<', 'std::vector<', 'std::deque<', 'std::map<', 'std::set<', 'std::multimap<')): return []
    return [strip_t(m) for m in re.findall(r'(?:shared_ptr|scoped_ptr|unique_ptr)<([^<>]+?)>', t)]

def run(P, tier):
    R = Result('the lock-acquisition graph is acyclic, no mutex is taken twice, and no mutex is held at a blocking operation')
    R.assumptions = ['locks are identified by owning class and member', 'a filter never calls back into a filter earlier in its chain']
    rec = Rec(); rec.edges = {}; rec.selfs = {}; rec.waits = []; rec.locks = []
    blocked = []
    nblock = 0
    direct = defaultdict(set)
    for f in P.fns.values():
        for n in f.nodes:
            if n.get('k') == 'call' and n.get('fn') in BLOCKING: direct[f.key].add(n['fn'])
    mayblock = closure(P, direct)
    dtors = {}
    for f in P.fns.values():
        if f.raw['dtor'] and mayblock.get(f.key): dtors[f.cls] = f
    later = []
    roots = [f for f in P.fns.values() if not same_tu_callers(f) or f.raw.get('overn')]
    atk = addr_taken_fns(P)
    roots += [f for f in P.fns.values() if f.key in atk and f not in roots]
    # destructors run wherever the last reference goes away
    for r in roots:
        if r.raw.get('lambda'): continue
        g = graph(P, r); fl = LF(g, rec).run()
        for i in g.instrs:
            if i.op == 'dtor' and i.id in fl.states and i.a[0] == 'v':
                t = i.ctx.fn.varinfo.get(i.a[2], {}).get('t', '')
                for e in owned_elements(t):
                    if e in dtors:
                        nblock += 1
                        R.ob(('dtor', i.ctx.fn.key, i.n, i.a[4]), 'end of life of %s in %s' % (i.a[4], short(i.ctx.fn.name)))
                        for ts, f in fl.at(i):
                            if held(ts): blocked.append((i, held(ts), r, short(e) + ' elements of ' + i.a[4] + ' destroyed', BLOCKING[sorted(mayblock[dtors[e].key])[0]]))
            if i.op != 'call' or i.id not in fl.states: continue
            if i.a[0] not in BLOCKING and i.ctx.calls.get(i.n) is None:
                cs = callees(P, i.node)
                if cs:
                    for ts, f in fl.at(i):
                        if held(ts):
                            R.ob(('under', i.ctx.fn.key, i.n), 'call of %s at %s with a mutex held' % (i.a[0], i.loc()))
                            later.append((i, held(ts), cs, r))
            R.functions.add(i.ctx.fn.key)
            fn = i.a[0]
            if fn in BLOCKING:
                nblock += 1
                R.ob(('block', i.ctx.fn.key, i.n), '%s at %s in %s' % (fn, i.loc(), short(i.ctx.fn.name)))
                for ts, f in fl.at(i):
                    h = held(ts)
                    if h: blocked.append((i, h, r, short(fn) + ' called', BLOCKING[fn]))
    R.count('blocking_calls', nblock)
    seenl = set()
    acq = defaultdict(set)
    for i, m, t in rec.locks: acq[i.ctx.fn.key].add(m)
    acq = closure(P, acq)
    for i, h, cs, r in later:
        for c in cs:
            b = mayblock.get(c.key)
            if b: blocked.append((i, h, r, short(c.name) + ' called', BLOCKING[sorted(b)[0]]))
            for m in acq.get(c.key, ()):
                for hm in h:
                    if hm != m: rec.edges.setdefault((hm, m), i)
    for i, m, t in rec.locks:
        if (i.ctx.fn.key, i.n) in seenl: continue
        seenl.add((i.ctx.fn.key, i.n))
        R.ob(('lock', i.ctx.fn.key, i.n, m), 'acquisition of %s at %s' % (short(m), i.loc()))
    R.count('acquisition_sites', len(seenl))
    R.count('order_edges', len(rec.edges))
    for k, (i, ht) in rec.selfs.items():
        R.violation('C02|self|%s|%s' % (k[2], i.ctx.fn.name), i.loc(), '%s acquires %s while already holding it' % (short(i.ctx.fn.name), short(k[2])), callstack(i))
    # cycles
    adj = defaultdict(set)
    for (a, b) in rec.edges: adj[a].add(b)
    def reach(a, b):
        seen = set(); st = [a]
        while st:
            x = st.pop()
            if x == b: return True
            for y in adj[x]:
                if y not in seen: seen.add(y); st.append(y)
        return False
    for (a, b), i in rec.edges.items():
        if a == b or reach(b, a):
            R.violation('C02|cycle|%s|%s' % (a, b), i.loc(), 'acquiring %s while holding %s closes a lock-order cycle' % (short(b), short(a)), callstack(i))
    sw = set()
    for i, waited, other in rec.waits:
        R.ob(('wait', i.ctx.fn.key, i.n), 'condition wait at %s' % i.loc())
        sw.add((i.ctx.fn.key, i.n))
        if other:
            R.violation('C02|wait|%s' % i.ctx.fn.name, i.loc(), '%s waits on a condition while holding %s' % (short(i.ctx.fn.name), ', '.join(map(short, other))), callstack(i))
        if waited is None:
            R.violation('C02|waitnolock|%s' % i.ctx.fn.name, i.loc(), '%s waits on a condition without holding its mutex' % short(i.ctx.fn.name), callstack(i))
    R.count('waits', len(sw))
    for i, h, r, what, why in blocked:
        R.violation('C02|blocking|%s|%s|%s' % (r.name, i.ctx.fn.name, what), i.loc(),
                    '%s: %s (%s) while holding %s' % (short(i.ctx.fn.name), what, why, ', '.join(sorted(map(short, h)))),
                    ['entry point: ' + short(r.name)] + callstack(i))
    R.need('acquisition_sites', 15); R.need('waits', 4); R.need('blocking_calls', 20)
    return R
