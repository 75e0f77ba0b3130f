"""C04: one request of a client session at a time; the session's state is given back on every path."""
from mp.claims import *
from mp.report import Result
TECHNIQUE = 'path-sensitive ownership (typestate) analysis over the inlined flow graph of every filter entry point'

class SessionClaim(ClaimFlow):
    """ts = (ownership, session closed? '?'/'0'/'1', others queue for the object?)"""
    def start(self): return ('f', '?', '')
    def rootpkg(self, t):
        r = None
        for s in allterms(t):
            if s[0] == 'v' and s[3] == 0: r = s
        return r is not None
    def step(self, i, ts, facts):
        own, cl, q = ts
        if i.op == 'assume':
            out = []
            atoms_of(i.a[0], i.a[1], out, facts.defs())
            for a in out:
                if a[0] in ('eq', 'ne') and a[1][0] == 'f' and a[1][2] == 'm_close' and self.rootpkg(a[1]):
                    v = a[2] if a[0] == 'eq' else (1 if a[2] == 0 else None)
                    if v is not None: cl = '1' if v else '0'
                elif a[0] == 'ne' and a[2] == 0 and a[1][0] == 'f' and a[1][2] != self.flag and self.fc.get(a[1]) == self.cls and own == 'r':
                    q = 'w'
                elif a[0] == 'le' and a[1][0] == 'i' and a[1][1] >= 1 and a[2][0] == 'f' and self.fc.get(a[2]) == self.cls and own == 'r':
                    q = 'w'
        for o, f in ClaimFlow.step(self, i, own, facts):
            yield (o, cl, q), f

def is_pool(P, cls, tables):
    """kept in a list shared by sessions rather than in a per-session map"""
    for c, f in tables:
        for x in P.recs[c]['fields']:
            if x['n'] == f and 'metaproxy_1::Session,' in x['t']: return False
    return True

def run(P, tier):
    R = Result('the per-session state object of a filter is claimed only when free, and every path to return gives it back: kept when the session goes on, dropped when it is closed')
    R.assumptions = ['paths that leave by an exception are judged by the exception rule, not here']
    flags = busy_flags(P)
    for (cls, flag), wf in sorted(flags.items()):
        tables = tables_of(P, cls)
        if not tables or is_pool(P, cls, tables): continue
        R.count('session_objects')
        R.samples.append('%s::%s kept in %s' % (short(cls), flag, ', '.join(short(c) + '::' + f for c, f in tables)))
        for r in runtime_roots(P):
            g = graph(P, r)
            ev = []
            fl = SessionClaim(g, cls, flag, tables, ev)
            if not any(fl.flag_write(i) for i in g.instrs): continue
            fl.run()
            R.functions.add(r.key); R.count('entry_points')
            seen = set()
            for kind, i, own, facts in ev:
                if own is None: continue
                R.ob((kind, r.key, cls, i.ctx.fn.key, i.n), '%s of %s at %s' % (kind, short(cls), i.loc()))
                if kind == 'claim':
                    R.count('claims')
                    if own == 'h': continue        # claiming what is already ours
                    if not (claim_free(fl, i, facts) or created_here(g, i, facts)):
                        R.violation('C04|claim|%s|%s' % (cls, i.ctx.fn.name), i.loc(),
                                    '%s takes the session state of %s without having seen that no other request uses it' % (short(i.ctx.fn.name), short(cls)), ['entry point: ' + short(r.name)] + callstack(i))
                elif own == 'f':
                    R.violation('C04|foreign|%s|%s' % (cls, i.ctx.fn.name), i.loc(),
                                '%s gives back session state of %s that this request does not hold' % (short(i.ctx.fn.name), short(cls)), callstack(i))
            for ts, facts in fl.at(g.exitnode):
                own, cl, q = ts
                R.ob(('exit', r.key, cls, ts))
                R.count('exit_states')
                if own == 'h':
                    R.violation('C04|leak|%s|%s' % (cls, r.name), r.loc(), '%s returns on some path without giving back the session state: later requests of the session wait for ever' % short(r.name), fl.path(g.exitnode, ts))
                elif own == 'r' and cl != '0' and not q:
                    R.violation('C04|stale|%s|%s' % (cls, r.name), r.loc(), '%s keeps the state of a session that may be closed' % short(r.name), fl.path(g.exitnode, ts))
                elif own == 'e' and cl != '1':
                    R.violation('C04|dropped|%s|%s' % (cls, r.name), r.loc(), '%s drops the state of a session that may still be open' % short(r.name), fl.path(g.exitnode, ts))
    R.need('session_objects', 4); R.need('claims', 6); R.need('exit_states', 6)
    return R

def claim_free(fl, i, facts):
    t = i.a[0]
    if facts.value(t) == 0: return True
    return False

def created_here(g, i, facts):
    """the object was made by this request: the constructor's own flag, or a pointer that holds a new object"""
    if i.op == 'init': return True
    b = i.a[0][1]
    defs = [x.a[1] for x in g.instrs if x.op in ('assign', 'decl') and x.a[0] == b and x.a[1] != ('i', 0)]
    return bool(defs) and all(d is not None and d[0] == 't' and d[2] >= 0 and g.ctxs[d[1]].fn.nodes[d[2]].get('k') == 'new' for d in defs)
