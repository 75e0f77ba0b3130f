from mp.common import *
from mp.report import Result
from collections import defaultdict
TECHNIQUE = 'condition-variable typestate and wake-up pairing over inlined control-flow graphs'
LEVEL = 'other'

# (predicate field, function): writes that need no wake-up, one reason each
NO_NOTIFY = {
    ('m_input', 'cleanup'): 'runs on the event-loop thread, which is also the only thread that waits for queue space',
}
GROW = {'push_back', 'push_front', 'insert', 'emplace_back', 'emplace_front', 'emplace', 'push', 'resize', 'operator[]'}
SHRINK = {'erase', 'pop_front', 'pop_back', 'clear', 'remove', 'remove_if', 'pop', 'swap'}

def is_cond_call(i, names):
    return i.op == 'call' and i.a[1] is not None and i.a[0].split('::')[-1] in names and 'condition' in i.a[0]
WAITS = ('wait', 'timed_wait', 'wait_for', 'wait_until')
NOTIFY = ('notify_one', 'notify_all')

def reads_shared(t, facts, depth=0):
    """the condition looks at state other threads can change"""
    for s in allterms(t):
        if s[0] in ('f', 'c', 'g', 'd', 'x'): return True
        if s[0] == 't': return True
        if s[0] == 'v' and depth < 3:
            d = facts.defs().get(s)
            if d is not None and d[0] != 'i' and reads_shared(d, facts, depth + 1): return True
    return False

class WaitFlow(LockFlow):
    """ts = (locks, phase): phase is 'u' (predicate not looked at since the mutex was taken or the last wait),
       'w' (same, after a wait) or 'c' (looked at)"""
    def __init__(self, g, rec):
        LockFlow.__init__(self, g); self.rec = rec
    def start(self): return (frozenset(), 'c')
    def on_lock(self, i, ts, m, term, facts): self.locked = True
    def on_wait(self, i, ts, facts): self.waiting = True
    def step(self, i, ts, facts):
        locks, ph = ts
        self.locked = self.waiting = False
        if i.op == 'assume' and reads_shared(i.a[0], facts): ph = 'c'
        for nl, nf in LockFlow.step(self, i, locks, facts):
            if self.waiting:
                self.rec.append((i, ph, nl, facts))
                ph = 'w'
            elif self.locked: ph = 'u'
            elif held(nl) != held(locks) and len(held(nl)) < len(held(locks)):
                if ph == 'w': self.bad.append(i)
            yield (nl, ph), nf

def cond_id(g, i):
    return lockid(g, i.ctx, i.node['obj'], i.a[1])

class Pred:
    def __init__(self): self.scalar = {}; self.cont = {}; self.where = []

class NotifyFlow(LockFlow):
    """ts = (locks, pending wake-ups, conditions notified in this critical section)"""
    def __init__(self, g, preds, fieldcls, R):
        LockFlow.__init__(self, g); self.preds = preds; self.fieldcls = fieldcls; self.R = R
        self.sites = {}
        self.fields = set(k[1] for p in preds.values() for k in list(p.scalar) + list(p.cont))
    def start(self): return (frozenset(), frozenset(), frozenset())
    def enabling(self, i, facts):
        out = []
        if i.op in ('assign',) and i.a[0] is not None and i.a[0][0] == 'f':
            fld = i.a[0][2]; cls = self.fieldcls.get(i.a[0], self.clsof(i))
            for c, p in self.preds.items():
                q = p.scalar.get((cls, fld))
                if q is None: continue
                if NO_NOTIFY.get((fld, i.ctx.fn.short)): continue
                r = i.a[1]
                v = facts.value(r) if r is not None else None
                if v is None or any((k == 'ne' and v == x) or (k == 'eq' and v != x) for k, x in q): out.append((c, 'all'))
        elif i.op == 'call' and i.a[1] is not None and i.a[1][0] == 'f':
            sh = i.a[0].split('::')[-1]
            kind = 'grow' if sh in GROW else 'shrink' if sh in SHRINK else None
            if kind:
                fld = i.a[1][2]
                for c, p in self.preds.items():
                    for (cls, f), kinds in p.cont.items():
                        if f != fld or not (kind in kinds or 'k' + kind in kinds): continue
                        if cls != self.fieldcls.get(i.a[1], cls): continue
                        if NO_NOTIFY.get((fld, i.ctx.fn.short)): continue
                        # element whose own flag already released its waiters
                        if kind == 'shrink' and self.released(p, facts): continue
                        # waiters for one particular element may not be the one that a single wake-up reaches
                        out.append((c, 'all' if 'k' + kind in kinds else 'one'))
        return out
    def released(self, p, facts):
        for (cls, f), q in p.scalar.items():
            for a in facts.s:
                if a[0] in ('eq', 'ne') and a[1][0] == 'f' and a[1][2] == f and a[1][1][0] != 'this':
                    for k, x in q:
                        if k == 'ne' and a[0] == 'eq' and a[2] == x: return True
        return False
    def clsof(self, i):
        nd = i.ctx.fn.nodes[i.node['c'][0]] if i.node and i.node.get('c') else {}
        return nd.get('cls')
    def step(self, i, ts, facts):
        locks, pend, noted = ts
        for c, who in self.enabling(i, facts):
            self.sites[(c, i.ctx.fn.key, i.n)] = i
            if (c, 'all') not in noted and (c, who) not in noted: pend = pend | {(c, i.id, who)}
        if is_cond_call(i, NOTIFY):
            c = cond_id(self.g, i)
            w = 'all' if i.a[0].endswith('notify_all') else 'one'
            pend = frozenset(e for e in pend if e[0] != c or (e[2] == 'all' and w == 'one'))
            noted = noted | {(c, w)}
        for nl, nf in LockFlow.step(self, i, locks, facts):
            if len(held(nl)) < len(held(locks)): noted = frozenset()
            if len(held(nl)) > len(held(locks)):
                # other threads ran in between: the awaited state may have changed
                nf = nf.killif(lambda x: any(s[0] in ('f', 'c') and self.awaited(s) for s in subterms(x)))
            yield (nl, pend, noted), nf
    def awaited(self, s):
        if s[0] == 'c': return len(s) == 3 and s[2] is not None and s[2][0] == 'f' and s[2][2] in self.fields
        return s[2] in self.fields

def releases(w, x):
    lk = w.a[2][0] if w.a[2] else None
    if x.op == 'dtor': return x.a == lk
    if x.op == 'call' and x.a[1] == lk and x.a[0].split('::')[-1] == 'unlock': return True
    return False

def run(P, tier):
    R = Result('every condition wait re-checks its predicate under the mutex, and every change that can satisfy a waiter is followed by a wake-up')
    R.assumptions = ['a wake-up counts when it is issued after the change on the same path or before it in the same critical section']
    preds = defaultdict(Pred)
    fieldcls = {}
    for f in P.fns.values():
        if not any('condition' in n.get('fn', '') and n['fn'].split('::')[-1] in WAITS for n in f.calls()): continue
        g = graph(P, f); fl = WaitFlow(g, []); fl.bad = []; fl.run()
        cls = {}
        for i in g.instrs:
            if i.op == 'acc' and i.node['k'] == 'mem': cls[i.a] = i.node.get('cls')
        R.functions.add(f.key)
        for i in fl.bad:
            R.violation('C03|norecheck|%s' % f.name, i.loc(), '%s leaves the critical section after a wait without looking at the awaited state again' % short(f.name))
        for i in g.instrs:
            if not is_cond_call(i, WAITS) or i.ctx.fn is not f or i.id not in fl.states: continue
            R.ob(('wait', f.key, i.n), 'wait at %s in %s' % (i.loc(), short(f.name)))
            R.count('waits')
            timed = i.a[0].split('::')[-1] != 'wait'
            seen = set(); st = list(i.succ); cyc = False
            while st:
                x = st.pop()
                if x.id in seen: continue
                seen.add(x.id)
                if x is i: cyc = True; break
                # a plain wait must be retried within the same critical section
                if not timed and releases(i, x): continue
                st += x.succ
            if not cyc:
                R.violation('C03|noloop|%s' % f.name, i.loc(), '%s waits outside a loop: a spurious or stolen wake-up is taken for the event' % short(f.name))
            c = cond_id(g, i)
            p = preds[c]; p.where.append(i.loc())
            for (locks, ph), facts in fl.at(i):
                if ph != 'c':
                    R.violation('C03|blindwait|%s' % f.name, i.loc(), '%s waits without first looking at the awaited state under the mutex: a wake-up sent before is lost' % short(f.name))
                for a in facts.s:
                    if a[0] in ('eq', 'ne') and a[1][0] == 'f' and a[1] in cls:
                        p.scalar.setdefault((cls[a[1]], a[1][2]), set()).add((a[0], a[2]))
                    for x in a[1:]:
                        if isinstance(x, tuple) and x[0] == 'c' and len(x) == 3 and x[2] is not None and x[2][0] == 'f' and x[2] in cls:
                            k = (cls[x[2]], x[2][2]); sh = x[1].split('::')[-1]
                            if a[0] == 'diff' and sh == 'end': p.cont.setdefault(k, set()).add('kshrink')
                            if a[0] == 'eq' and a[2] == 0 and sh == 'size': p.cont.setdefault(k, set()).add('grow')
                            if a[0] == 'ne' and a[2] == 0 and sh == 'empty': p.cont.setdefault(k, set()).add('grow')
                            if a[0] in ('le', 'lt') and a[2] == x and sh == 'size': p.cont.setdefault(k, set()).add('shrink')
                            if a[0] in ('le', 'lt') and a[1] == x and sh == 'size': p.cont.setdefault(k, set()).add('grow')
    for c, p in preds.items():
        R.count('conditions')
        if not p.scalar and not p.cont: continue
        R.samples.append('%s: awaited state %s %s' % (short(c), [short(k[0]) + '::' + k[1] for k in p.scalar], [short(k[0]) + '::' + k[1] for k in p.cont]))
        R.count('awaited_fields', len(p.scalar) + len(p.cont))
    fields = set(k[1] for p in preds.values() for k in list(p.scalar) + list(p.cont))
    atk = addr_taken_fns(P)
    touch = set()
    for f in P.fns.values():
        if any(n.get('k') == 'mem' and n.get('n') in fields for n in f.nodes): touch.add(f.key)
    roots = [f for f in P.fns.values() if not f.raw.get('lambda') and not f.raw['ctor'] and (not same_tu_callers(f) or f.raw.get('overn') or f.key in atk)
             and not config_only_nodtor(P, f)]
    for r in roots:
        g = graph(P, r)
        if not any(c.fn.key in touch for c in g.ctxs): continue
        fc = {}
        for i in g.instrs:
            if i.op == 'acc' and i.node['k'] == 'mem': fc[i.a] = i.node.get('cls')
        fl = NotifyFlow(g, preds, fc, R).run()
        for k, i in fl.sites.items():
            R.ob(('write',) + k, 'change at %s in %s wakes waiters of %s' % (i.loc(), short(i.ctx.fn.name), short(k[0])))
            R.count('enabling_writes')
        for ts, facts in fl.at(g.exitnode):
            for c, iid, who in ts[1]:
                i = g.instrs[iid]
                R.violation('C03|nowake|%s|%s' % (c, i.ctx.fn.name), i.loc(),
                            '%s changes state that threads waiting on %s are waiting for, and on some path to return sends no wake-up%s' % (short(i.ctx.fn.name), short(c), ' to all of them' if who == 'all' else ''),
                            ['entry point: ' + short(r.name)] + callstack(i))
    R.need('waits', 4); R.need('conditions', 4); R.need('enabling_writes', 6)
    return R

def config_only_nodtor(P, f):
    return not f.raw['dtor'] and config_only(P, f)
