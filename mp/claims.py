"""Busy-flag ownership: an object kept in a table of a filter is claimed by setting its flag, and given back
   by clearing the flag or by taking the object out of its table."""
from .common import *
from collections import defaultdict

WAITS = ('wait', 'timed_wait', 'wait_for', 'wait_until')

def busy_flags(P):
    """{(class, flag field)} of the objects that threads wait for: fields known non-zero at a condition wait"""
    out = {}
    for f in P.fns.values():
        if not any('condition' in n.get('fn', '') and n['fn'].split('::')[-1] in WAITS for n in f.calls()): continue
        g = graph(P, f); fl = LockFlow(g).run()
        cls = {i.a: i.node.get('cls') for i in g.instrs if i.op == 'acc' and i.node['k'] == 'mem'}
        for i in g.instrs:
            if i.op == 'call' and 'condition' in i.a[0] and i.a[0].split('::')[-1] in WAITS:
                for ts, facts in fl.at(i):
                    for a in facts.s:
                        if a[0] == 'ne' and a[2] == 0 and a[1][0] == 'f' and a[1] in cls and a[1][1][0] != 'this':
                            out[(cls[a[1]], a[1][2])] = f
    # also when the wait no longer shows it: a boolean of a table object that is set, cleared, and used where threads wait
    setc = defaultdict(set); waiting = set()
    for f in P.fns.values():
        wait = any('condition' in n.get('fn', '') and n['fn'].split('::')[-1] in WAITS for n in f.calls())
        for n in f.nodes:
            if n.get('k') == 'bin' and n['op'] == '=':
                l, r = f.nodes[n['c'][0]], f.nodes[n['c'][1]]
                if l.get('k') == 'mem' and l.get('t') == 'bool' and r.get('k') == 'bool':
                    setc[(l.get('cls'), l['n'])].add(r['v'])
                    if wait and r['v']: waiting.add((l.get('cls'), l['n']))
    for k, v in setc.items():
        if len(v) == 2 and k in waiting and k not in out and tables_of(P, k[0]): out[k] = None
    return out

def tables_of(P, cls):
    """fields that are containers of (pointers to) cls"""
    out = []
    for n, r in P.recs.items():
        if not r.get('own'): continue
        for f in r['fields']:
            t = f['t']
            if (cls + '>' in t or cls + ' *' in t) and ('std::map<' in t or 'std::list<' in t or 'std::vector<' in t or 'std::set<' in t or 'unordered_map<' in t):
                out.append((n, f['n']))
    return out

class ClaimFlow(Flow):
    """ts = 'f' free, 'h' held by this request, 'r' given back by clearing the flag, 'e' taken out of its table"""
    def __init__(self, g, cls, flag, tables, ev):
        Flow.__init__(self, g)
        self.cls = cls; self.flag = flag; self.tables = tables; self.ev = ev
        self.fc = {i.a: i.node.get('cls') for i in g.instrs if i.op == 'acc' and i.node['k'] == 'mem'}
    def start(self): return 'f'
    def is_table(self, t):
        return t is not None and t[0] == 'f' and any(t[2] == f for c, f in self.tables)
    def flag_write(self, i):
        if i.op in ('assign', 'init') and i.a[0] is not None and i.a[0][0] == 'f' and i.a[0][2] == self.flag:
            c = self.fc.get(i.a[0])
            if c is None and i.op == 'init': c = i.ctx.fn.cls
            return c == self.cls
        return False
    def fresh(self, i):
        """the object was created on this path (its constructor, or new in this function)"""
        c = i.ctx
        while c is not None:
            if c.fn.raw['ctor'] and i.a[0][1] == c.this: return True
            c = c.parent
        return False
    def step(self, i, ts, facts):
        if i.op == 'call' and i.a[1] is not None and i.a[0].endswith('::operator->'):
            facts = facts.add([('ne', i.a[1], 0)])      # dereferenced, so it was not null
        if self.flag_write(i):
            v = facts.value(i.a[1]) if i.a[1] is not None else None
            if v == 0:
                self.ev.append(('clear', i, ts, facts))
                ts = 'r' if ts == 'h' else ts
            else:
                self.ev.append(('claim', i, ts, facts))
                ts = 'h'
            facts = facts.add([('ne', i.a[0][1], 0)])
        elif i.op == 'call' and self.is_table(i.a[1]):
            sh = i.a[0].split('::')[-1]
            if sh in ('erase', 'clear', 'pop_front', 'pop_back', 'remove'):
                self.ev.append(('erase', i, ts, facts))
                if ts in ('h', 'r'): ts = 'e'
        elif i.op == 'assume' and ts in ('h', 'r'):
            # a claimed object is in its table: a lookup for it does not fail
            t, pol = i.a
            out = []
            atoms_of(t, pol, out, facts.defs())
            for a in out:
                if a[0] == 'same':
                    for x, y in ((a[1], a[2]), (a[2], a[1])):
                        if x[0] == 'c' and x[1].split('::')[-1] == 'end' and self.is_table(x[2]): return
        yield ts, facts
