"""C30: client and local address of a request are those of its connection; derived packages carry the request's origin."""
from mp.common import *
from mp.val import *
from mp.report import Result
TECHNIQUE = 'value-numbering dataflow: decision tables of the address functions evaluated over the abstract address "forwarded* peer bind"; origin of every package construction'
O = 'metaproxy_1::Origin'
PKG = 'metaproxy_1::Package'
NPOS = 'npos'

def flat(v):
    """pieces of a concatenation"""
    v = strip_str(v)
    if v[0] == 'b' and v[1] == '+': return flat(v[2]) + flat(v[3])
    if v == ('s', ''): return []
    if v == ('i', 32): return [('s', ' ')]
    return [v]

class Unknown(Exception): pass

class Addr:
    """abstract string: [H] ' ' P ' ' B with H arbitrary, P and B non-empty without blanks. Positions are (anchor, offset)."""
    def __init__(self, addr, forwarded):
        self.addr = addr; self.fw = forwarded
    def pos(self, v):
        if v[0] == 'i': return ('0', v[1])
        if v[0] == 'g' and v[-1].endswith('npos') or v[0] == 'enum': return (NPOS, 0)
        if v[0] == 'b' and v[1] in '+-':
            a, b = self.pos(v[2]), self.pos(v[3])
            if b[0] == '0': return (a[0], a[1] + b[1] if v[1] == '+' else a[1] - b[1])
            if v[1] == '+' and a[0] == '0': return (b[0], a[1] + b[1])
            if v[1] == '-' and a[0] == b[0]: return ('0', a[1] - b[1])
            if v[1] == '-': return (('diff', a[0], b[0]), a[1] - b[1])
            raise Unknown(v)
        if v[0] == 'c':
            fn = callfn(v)
            if fn in ('rfind', 'find_last_of', 'find') and v[2] is not None and v[3] in (('i', 32), ('s', ' ')) and strip_str(v[2]) != self.addr and (len(v) < 5 or (v[4][0] != 'i' and self.pos(v[4])[0] == NPOS)):
                base = self.str(v[2])
                if base == 'PEER': return (NPOS, 0)
                if base == 'FORWARDED PEER' and fn != 'find': return ('sep2', 0)
                raise Unknown(v)
            if fn in ('rfind', 'find_last_of') and v[2] is not None and self.str(v[2]) == 'ALL' and v[3] in (('i', 32), ('s', ' ')):
                p = self.pos(v[4]) if len(v) > 4 else (NPOS, 0)
                if p[0] in (NPOS, 'end'): return ('sep1', 0)
                if p[0] == 'sep1' and p[1] >= 0: return ('sep1', 0)
                if p[0] == 'sep1' and p[1] == -1: return ('sep2', 0) if self.fw else (NPOS, 0)
                raise Unknown(v)
            if fn in ('find', 'find_first_of') and v[2] is not None and self.str(v[2]) == 'ALL' and v[3] in (('i', 32), ('s', ' ')) and (len(v) < 5 or v[4] == I0):
                return ('first', 0) if self.fw else ('sep1', 0)
            if fn in ('length', 'size') and self.str(v[2]) == 'ALL': return ('end', 0)
        raise Unknown(v)
    def str(self, v):
        v = strip_str(v)
        if v == self.addr: return 'ALL'
        if v[0] == 'c' and callfn(v) == 'substr' and self.str(v[2]) == 'ALL':
            a = self.pos(v[3]) if len(v) > 3 else ('0', 0)
            n = self.pos(v[4]) if len(v) > 4 else (NPOS, 0)
            if a == ('sep1', 1) and (n[0] == NPOS or n == (('diff', 'end', 'sep1'), -1) or n == ('end', 0)): return 'BIND'
            if a == ('0', 0) and n == ('sep1', 0): return 'PEER' if not self.fw else 'FORWARDED PEER'
            if a == ('sep2', 1) and n == (('diff', 'sep1', 'sep2'), -1): return 'PEER'
            if a == ('sep2', 1) and n[0] == NPOS: return 'PEER BIND'
            return 'OTHER'
        if v[0] == 'c' and callfn(v) == 'substr':
            # part of a part
            base = self.str(v[2])
            if len(v) == 4 or (len(v) == 5 and self.pos(v[4])[0] == NPOS):
                a = v[3]
                if base == 'PEER' and a == I0: return 'PEER'
                if base in ('PEER', 'FORWARDED PEER') and a[0] == 'b' and a[1] == '+' and a[3] == ('i', 1):
                    q = a[2]
                    if q[0] == 'c' and callfn(q) in ('rfind', 'find_last_of') and q[2] is not None and (len(q) < 5 or (q[4][0] != 'i' and self.pos(q[4])[0] == NPOS)) and q[3] in (('i', 32), ('s', ' ')) and self.str(q[2]) == base:
                        return 'PEER'       # a rest without blank starts at npos + 1 = 0
            return 'OTHER'
        raise Unknown(v)
    def truth(self, a):
        """of an atom, None when unknown"""
        try:
            if a[0] == 'empty': return False if self.str(a[1]) == 'ALL' else None
            if a[0] in ('==', '<'):
                x, y = self.pos(a[1]), self.pos(a[2])
                if a[0] == '==':
                    if x == y: return True
                    for p, q in ((x, y), (y, x)):
                        if p[0] == NPOS and q[0] in ('sep1', 'sep2', 'first', 'end', '0'): return False
                        if p[0] == '0' and p[1] <= 0 and q[0] in ('sep1', 'end') and q[1] >= 0: return False
                    return None
                if x[0] == '0' and x[1] <= 0 and y[0] in ('sep1', 'end') and y[1] >= 0: return True
                if y[0] == '0' and y[1] <= 0 and x[0] in ('sep1', 'sep2', 'end') and x[1] >= 0: return False
        except Unknown: pass
        return None

def run(P, tier):
    R = Result('setting the address of an origin keeps what was there at the end; the client and local address are its last but one and last component, evaluated for every prefix; each connection sets its address from its peer and port before anything else; packages are only built with the origin of a request or connection')
    R.assumptions = ['addresses of peers and listening ports contain no blanks']
    rec = P.recs.get(O)
    if not rec: raise AnalysisError('no class ' + O)
    T = ('this', 0)
    def V(k, f, msg, detail=()): R.violation('C30|' + k, f if isinstance(f, str) else f.loc(), msg, list(detail))
    def table(f, **kw):
        R.functions.add(f.key)
        return ValFlow(graph(P, f, nobind=True, **kw)).run()
    def one(n):
        l = [f for f in P.methods_of[O] if f.short == n]
        return l
    # --- setting
    field = None
    for f in one('set_tcpip_address'):
        v = table(f)
        p = f.params[0]; new = ('v', f.tu, p['d'], 0, p['n'])
        strs = [('f', T, x['n']) for x in rec['fields'] if is_string_t(x['t'])]
        ex = v.exits()
        cand = [l for l in strs if any(l in s.env and new in flat(s.env[l]) for ts, s, r in ex)]
        if len(cand) != 1: V('set', f, 'setting the address of an origin does not store it'); continue
        field = cand[0]
        for ts, s, r in ex:
            R.ob(('set', s.key()), 'set: address = %s when %s' % (sv(s.val(field)), ' && '.join(sc(c) for c in s.conds))); R.count('setting')
            pieces = flat(s.val(field))
            e = s.truth_v(('c', 'std::string::empty', field))
            if e is True and pieces == [new]: continue
            if e is False and pieces == [new, ('s', ' '), field]: continue
            if e is None and pieces == [new, ('s', ' '), field]: continue
            V('keep', f, 'setting the address of an origin a second time does not keep the real address behind it (%s)' % sv(s.val(field)), [' && '.join(sc(c) for c in s.conds)])
    # --- observing
    if field is not None:
        for n, want in (('get_address', 'PEER'), ('get_bind_address', 'BIND')):
            for f in one(n):
                v = table(f)
                for fw in (False, True):
                    A = Addr(field, fw)
                    got = set()
                    for ts, s, r in v.exits():
                        if any(A.truth(a) == (not p) for a, p in s.conds): continue
                        R.ob((n, fw, s.key()), '%s with%s forwarded part: %s' % (n, '' if fw else 'out', sv(r))); R.count('observing')
                        try: got.add(A.str(r))
                        except Unknown: got.add('UNKNOWN ' + sv(r))
                    if got != {want}:
                        V('%s|%s' % (n, fw), f, 'the %s of a request %s a forwarded address is %s' % ('client address' if want == 'PEER' else 'local address', 'with' if fw else 'without', ', '.join(sorted(got)) or 'not reported'))
    # --- who sets it
    conn = set(); ctors = []
    for f in P.fns.values():
        if f.cls and derives(P, f.cls, 'yazpp_1::Z_Assoc') and any(x['t'] == O for x in (P.recs.get(f.cls) or {'fields': []})['fields']):
            conn.add(f.cls)
            if f.raw['ctor'] and not (len(f.params) == 1 and short(f.cls).split('::')[-1] in f.params[0]['t']): ctors.append(f)
    setters = {f.key for f in one('set_tcpip_address')}
    for f in ctors:
        v = table(f)
        ofs = [('f', T, x['n']) for x in P.recs[f.cls]['fields'] if x['t'] == O]
        ss = [i for i in v.g.instrs if i.op == 'call' and i.a[0] == O + '::set_tcpip_address']
        peers = [('v', f.tu, p['d'], 0, p['n']) for p in f.params]
        for i in ss:
            for ts, s in v.at(i):
                R.ob(('conn', i.n, s.key())); R.count('connections')
                if s.loc(i.a[1]) not in ofs: continue
                a = flat(s.val(i.a[2][0]))
                if not (len(a) == 3 and a[1] == ('s', ' ') and a[0] in peers and a[2][0] == 'f'):
                    V('conn|' + short(f.cls), i.loc(), 'the address of a connection is not "peer port" (%s)' % ' '.join(sv(x) for x in a))
        dom = every_path(v.g, set(i.id for i in ss if i.a[1] in ofs))
        if not dom: V('conn|unset|' + short(f.cls), f, 'a connection can be set up without an address')
    # --- packages carry an origin they were given
    rec = P.recs.get(PKG)
    pof = [('f', T, x['n']) for x in rec['fields'] if x['t'] == O]
    for f in P.methods_of[PKG]:
        if f.raw['ctor'] and len(f.params) == 2:
            v = table(f)
            for ts, s, r in v.exits():
                R.ob(('pctor', s.key())); R.count('package')
                p = f.params[1]; new = ('v', f.tu, p['d'], 0, p['n'])
                if not pof or s.val(pof[0]) != new: V('package', f, 'a package does not keep the origin it is made with')
        elif f.short == 'origin':
            v = table(f)
            for ts, s, r in v.exits():
                R.ob(('porigin', f.key, s.key())); R.count('package')
                while r is not None and r[0] in ('addr', 'd'): r = r[1]
                if not pof or r != pof[0]: V('package|get', f, 'a package reports an origin other than its own')
    for f in P.fns.values():
        if '/test_' in f.file or f.cls == PKG: continue
        if not any(n.get('k') == 'ctor' and n.get('cls') == PKG and len(n.get('c', [])) == 2 for n in f.nodes): continue
        g = graph(P, f, inline=False, nobind=True)
        R.functions.add(f.key)
        for i in g.instrs:
            if i.op == 'call' and i.node and i.node.get('k') == 'ctor' and i.node.get('cls') == PKG and len(i.a[2]) == 2:
                R.ob(('made', f.key, i.n), '%s: package made with origin %s' % (i.loc(), show(i.a[2][1]))); R.count('packages')
                if not origin_ok(g, i, i.a[2][1], f, conn):
                    V('made|' + short(f.name), i.loc(), 'a package is made with an origin that is not the one of the request (%s)' % show(i.a[2][1]))
    R.need('setting', 1); R.need('observing', 1); R.need('packages', 8); R.need('connections', 1)
    return R

def every_path(g, ids):
    """each normal path from entry to exit passes one of the instructions"""
    seen = {g.entry.id}; w = [g.entry]
    while w:
        x = w.pop()
        if x.id in ids: continue
        if x is g.exitnode: return False
        for s in x.succ:
            if s.id not in seen: seen.add(s.id); w.append(s)
    return True

def origin_ok(g, i, t, f, conn, depth=0):
    if depth > 6: return False
    while t[0] in ('addr', 'd'): t = t[1]
    if t[0] == 'c' and t[1] == PKG + '::origin': return True
    if t[0] == 'f' and f.cls in conn and t[1][0] == 'this': return True
    if t[0] == 'f': return any(x['n'] == t[2] and O in x['t'] for c in conn for x in (P_recs(g, c)))
    if t[0] in ('v', 't'):
        vals = [j.a[1] for j in g.instrs if j.op in ('decl', 'assign', 'init', 'ret') and j.a[0] == t and j.a[1] is not None]
        for j in g.instrs:
            if j.op == 'call' and j.a[3] == t:
                if j.a[0] == PKG + '::origin': vals.append(('c', PKG + '::origin', None))
                elif j.node.get('cc') and j.a[2]: vals.append(j.a[2][0])
        if vals: return all(origin_ok(g, i, x, f, conn, depth + 1) for x in vals)
        return t[0] == 'v' and any(p['n'] == t[-1] and O in p['t'] for p in f.params)
    return False

def P_recs(g, c): return g.P.recs[c]['fields']
