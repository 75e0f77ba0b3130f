"""C07: every request that reaches a filter is answered, passed on, or its session is closed."""
from mp.common import *
from mp.report import Result
from rules.C08 import GDUGET, UnionFlow
TECHNIQUE = 'typestate over path-sensitive must-facts of whole-program inlined control-flow graphs: outcome of the request on every path through every filter'

KINDS = ((1, 'Z39.50'), (2, 'HTTP'))
NONNULL = ('zget_APDU', 'odr_malloc')
SENT = ('::processEvent', '::send_GDU')          # the request is with the network; the call-backs of the connection settle it
NOTFILTERS = ('metaproxy_1::filter::FrontendNet::process',     # entered once, at start, without a request
              'metaproxy_1::filter::Filter_dl::process')       # sample for plug-in loading, not part of the installed set

def processes(P):
    return [f for f in P.fns.values() if f.short == 'process' and f.raw.get('overn') and derives(P, f.cls, 'metaproxy_1::filter::Base') and f.name not in NOTFILTERS]

def own_field(t, name, mine):
    return t[0] == 'f' and t[2] == name and mine(t[1])

class Outcome(Flow):
    MAXK = 64
    """0: nothing done for the request so far, 1: settled"""
    def __init__(self, g, kind, marks):
        Flow.__init__(self, g)
        self.pkg = [p['d'] for p in g.root.params][0]; self.marks = marks
        given = set()
        self.flagvars = self.flagvars - set(i.a[0] for i in g.instrs if i.op == 'assign' and i.a[0] is not None and i.a[1] is not None and i.a[1][0] == 'b' and contains(i.a[1], i.a[0]))      # counters
        for i in g.instrs:
            for t in terms_of(i):
                for s in allterms(t):
                    if s[0] == 'c' and s[1] == GDUGET and len(s) > 2:
                        o = s[2]
                        while o[0] in ('d', 'addr'): o = o[1]
                        if own_field(o, 'm_request_gdu', self.mine): given |= set([('ne', s, 0), ('eq', ('f', s, 'which'), kind), ('eq', ('f', ('d', s), 'which'), kind)])
        self.given = sorted(given, key=str)
        self.settles = [i for i in g.instrs if self.settled(i, None)]
        self.always = self.fanouts()
    def mine(self, t):
        while t[0] in ('d', 'addr'): t = t[1]
        return t[0] == 'v' and t[3] == 0 and t[2] == self.pkg
    def settled(self, i, facts):
        al = facts.alias if facts is not None else lambda t: (t,)
        if i.op == 'call':
            fn, ob, args, res = i.a
            if fn.endswith(SENT): return True
            if ob is not None and fn.endswith('Package::move'): return any(self.mine(x) for x in al(ob))
            if ob is not None and fn.endswith('Session::close'): return any(x[0] == 'f' and self.mine(x[1]) for x in al(ob))
        return i.op == 'assign' and i.a[0] is not None and any(own_field(x, 'm_response_gdu', self.mine) for x in al(i.a[0]))
    def fanouts(self):
        """ways out of loops every round of which settles the request"""
        out = set(); done = set(i.id for i in self.settles)
        if not done: return out
        def reach(src, avoid):
            seen = set(); w = [s for s in src.succ if s.id not in avoid]
            while w:
                x = w.pop()
                if x.id in seen: continue
                seen.add(x.id); w += [s for s in x.succ if s.id not in avoid]
            return seen
        for i in self.g.instrs:
            if i.op == 'assume' and i.a[1] and i.a[0][0] == 'b' and i.a[0][1] == '!=':
                if i.id in reach(i, ()) and i.id not in reach(i, done):
                    out |= set(j.id for p in i.pred for j in p.succ if j.op == 'assume' and not j.a[1])
        return out
    def entry_facts(self): return self.given
    def start(self): return 0
    def key(self, ts, facts):
        return ts, frozenset((a[1], a[0] == 'eq' and a[2] == 0) for a in facts.s if a[1] in self.flagvars and (a[0] == 'eq' or a[0] == 'ne' and a[2] == 0))
    def base(self, i, facts):
        f = Flow.base(self, i, facts)
        if f is None: return None
        if i.op == 'new':
            for c in i.node.get('c') or ():
                if c is not None and c >= 0 and i.ctx.fn.nodes[c].get('k') == 'ctor': f = UnionFlow.carry(self, f, facts, ('t', i.ctx.id, c), i.a)
            f = f.add([('ne', i.a, 0)])
        elif i.op in ('assign', 'decl', 'ret') and i.a[1] is not None and i.a[0] is not None:
            f = UnionFlow.carry(self, f, facts, i.a[1], i.a[0])
            v = f.value(i.a[0])
            if (v is not None and v != 0) or facts.nonnull(i.a[1]): f = f.add([('ne', i.a[0], 0)])
        elif i.op == 'acc' and i.a[0] == 'f' and i.node.get('k') == 'mem': f = f.add([('ne', i.a[1], 0)])
        elif i.op == 'call':
            if i.a[1] is not None and i.a[0].endswith('::operator->'): f = f.add([('ne', i.a[1], 0)])       # it was there when it was used
            elif i.a[0].split('::')[-1] in NONNULL: f = f.add([('ne', i.a[3], 0)])
        return f.add(self.given)
    def step(self, i, ts, facts):
        if ts == 0:
            if self.settled(i, facts) or i.id in self.always: ts = 1
            elif i.op == 'assume':
                t, pol = i.a
                while t[0] == '!': t = t[1]; pol = not pol
                if pol and t[0] == 'f' and t[2] in self.marks: ts = 1
        yield ts, facts

def terms_of(i):
    if i.op == 'call': return [x for x in [i.a[1], i.a[3]] + list(i.a[2]) if x]
    if isinstance(i.a, tuple) and i.a and isinstance(i.a[0], str): return [i.a]
    return [x for x in (i.a if isinstance(i.a, (tuple, list)) else ()) if isinstance(x, tuple) and x and isinstance(x[0], str)]

class Closed(Flow):
    """1: the session of a package is seen to be closed"""
    def start(self): return 0
    def step(self, i, ts, facts):
        if i.op == 'assume':
            t, pol = i.a
            while t[0] == '!': t = t[1]; pol = not pol
            if pol and any(x[0] == 'f' and x[2] == 'm_close' for x in facts.alias(t)): ts = 1
        yield ts, facts

def marks(P):
    """flags that are only ever set by functions that look whether the session is closed: finding one set says
       that it is; and marks put on an object made in the course of answering"""
    good = {}
    for f in P.fns.values():
        w = dict((n, 1) for n in writes(f))
        if not w: continue
        saw = any(n.get('k') == 'call' and (n.get('fn') or '').endswith('Session::is_closed') for n in f.nodes)
        closed = set()
        if saw and any(good.get(n, True) for n in w):
            g = graph(P, f, cross=True); fl = Closed(g).run()
            for i in g.instrs:
                if i.op == 'assign' and i.ctx.parent is None and i.a[0] is not None and i.a[0][0] == 'f' and i.a[0][2] in w:
                    if all(ts for ts, st in fl.at(i)): closed.add(i.a[0][2])
        if any((n.get('fn') or '').endswith('Package::response') for n in f.nodes if n.get('k') == 'call'):       # a mark on what was made while answering
            closed |= set(n for n, c in writes(f, True) if any(x.get('k') == 'new' and x.get('at') == c for x in f.nodes))
        for n in w: good[n] = good.get(n, True) and n in closed
    return set(k for k, v in good.items() if v)

def writes(f, cls=False):
    for n in f.nodes:
        c = n.get('c') or []
        if n.get('k') == 'bin' and n.get('op') == '=' and len(c) == 2 and f.nodes[c[0]].get('k') == 'mem': 
            if f.nodes[c[0]].get('t') == 'bool' and f.nodes[c[1]].get('cv') != 0: yield (f.nodes[c[0]]['n'], f.nodes[c[0]].get('cls')) if cls else f.nodes[c[0]]['n']

class CallBack(Flow):
    """(the wait was ended, the request is settled) for a call-back of a connection that works for a request"""
    def __init__(self, g, pk, waits, stage):
        Flow.__init__(self, g)
        self.pk = pk; self.waits = waits; self.stage = stage
        self.given = [('ne', ('f', ('this', 0), pk), 0), ('ne', ('f', ('d', ('this', 0)), pk), 0)]
    def entry_facts(self): return self.given
    def start(self): return (0, 0)
    def base(self, i, facts):
        f = Flow.base(self, i, facts)
        return f if f is None else f.add(self.given)
    def step(self, i, ts, facts):
        if i.op == 'assign' and i.a[0] is not None and i.a[0][0] == 'f':
            t, v = i.a[0], i.a[1]
            c = v[1] if v is not None and v[0] == 'i' else None
            if t[2] == 'm_response_gdu': ts = (ts[0], 1)
            elif t[2] in self.waits and c == 0: ts = (1, ts[1])
            elif t[2] in self.stage and c: ts = (ts[0], ts[1] or 2)       # the request goes on to its next stage
        yield ts, facts

def connections(P):
    """connection classes that work for the request of a package: (class, field with the package, flags a handler waits on,
       fields that say how far the connection is, call-backs)"""
    out = []
    for c, r in sorted(P.recs.items()):
        if not derives(P, c, 'yazpp_1::Z_Assoc'): continue
        pk = [x['n'] for x in r.get('fields', []) if x['t'] == 'metaproxy_1::Package *']
        cb = [f for f in P.fns.values() if f.cls == c and f.raw.get('overn') and not f.raw['dtor']]
        names = set(x['n'] for x in r.get('fields', []) if x['t'] in ('bool', 'int'))
        waits = set(); stage = set()
        for f in P.fns.values():
            if f.cls == c or not any(n.get('k') == 'call' and (n.get('fn') or '').endswith('::processEvent') for n in f.nodes): continue
            g = graph(P, f)
            tested = set(s[2] for i in g.instrs if i.op == 'assume' and i.ctx.parent is None for s in allterms(i.a[0]) if s[0] == 'f' and s[2] in names)
            up = set(i.a[0][2] for i in g.instrs if i.op == 'assign' and i.ctx.parent is None and i.a[0] is not None and i.a[0][0] == 'f' and i.a[1] == ('i', 1))
            waits |= tested & up; stage |= tested - up
        if pk and cb and waits: out.append((c, pk[0], waits, stage, cb))
    return out

def run(P, tier):
    R = Result('every path from the entry of every filter\'s request handler to its return, for a Z39.50 and for an HTTP request, hands the request on, gives the response, closes the session, or leaves it with a connection whose call-backs do so')
    mk = marks(P)
    for r in processes(P):
        g = graph(P, r, cross=True)
        R.functions |= set(c.fn.key for c in g.ctxs); R.count('filters')
        for kind, name in KINDS:
            fl = Outcome(g, kind, mk).run()
            R.ob((r.key, name), '%s request through %s' % (name, short(r.name))); R.count('request_kinds')
            R.count('settling_sites', len(fl.settles))
            if any(ts == 0 for ts, f in fl.at(g.exitnode)):
                R.violation('C07|%s|%s' % (r.name, name), r.loc(), '%s can return from an %s request that it neither answered nor passed on, with the session left open' % (short(r.name), name), fl.path(g.exitnode, 0))
    for c, pk, waits, stage, cb in connections(P):
        R.count('connection_classes')
        for f in cb:
            g = graph(P, f, cross=True)
            R.functions |= set(x.fn.key for x in g.ctxs); R.count('call_backs')
            R.ob((f.key, 'call-back'), 'call-back %s with a request pending' % short(f.name))
            fl = CallBack(g, pk, waits, stage).run()
            for ts, st in fl.at(g.exitnode):
                if ts[0] and not ts[1]: msg = '%s ends the wait for a pending request without giving its response' % short(f.name)
                elif ts[1] == 1 and not ts[0]: msg = '%s gives the response of a pending request but leaves the handler waiting' % short(f.name)
                elif f.short == 'failNotify' and not ts[0]: msg = '%s leaves a pending request waiting although its connection is gone' % short(f.name)
                else: continue
                R.violation('C07|%s|call-back' % f.name, f.loc(), msg, fl.path(g.exitnode, ts))
    R.need('filters', 10); R.need('settling_sites', 20)
    return R
