"""Lock-set analysis shared by the concurrency rules."""
from .flow import *

LOCKTYPES = ('boost::unique_lock<', 'boost::lock_guard<', 'std::unique_lock<', 'std::lock_guard<',
             'std::scoped_lock<', 'boost::shared_lock<', 'boost::mutex::scoped_lock', 'boost::detail::')
def is_locktype(t):
    t = strip_t(t)
    return t.startswith(LOCKTYPES) and 'mutex' in t
def is_mutex(t):
    t = strip_t(t)
    return t in ('boost::mutex', 'std::mutex', 'boost::recursive_mutex', 'std::recursive_mutex',
                 'boost::shared_mutex', 'std::shared_mutex', 'boost::timed_mutex')

def lockid(g, ctx, nid, term):
    """class-level name of the mutex an expression denotes: Class::field"""
    nd = ctx.fn.nodes[nid]
    # look through parameters bound at an inlined call
    while nd.get('k') == 'ref' and nd.get('dk') in ('param', 'var'):
        c = ctx.owner(nd['d'])
        if nd.get('dk') == 'param' and c.site is not None:
            idx = [p['d'] for p in c.fn.params].index(nd['d'])
            nid = c.parent.fn.nodes[c.site]['c'][idx]
            ctx = c.parent; nd = ctx.fn.nodes[nid]
            continue
        v = c.fn.varinfo.get(nd['d'])
        if v and v.get('init', -1) >= 0:
            nd = c.fn.nodes[v['init']]; ctx = c
            continue
        break
    while nd.get('k') == 'un' and nd['op'] in ('*', '&'):
        nd = ctx.fn.nodes[nd['c'][0]]
    if nd.get('k') == 'mem': return nd.get('cls', '?') + '::' + nd['n']
    if nd.get('k') == 'ref': return nd.get('qn', nd['n'])
    return show(term)

class LockFlow(Flow):
    """typestate: frozenset of (lock variable term or None, mutex id, mutex term) held"""
    def start(self): return frozenset()
    def step(self, i, ts, facts):
        if i.op == 'call':
            fn, ob, args, res = i.a
            nd = i.node
            if nd['k'] == 'ctor' and is_locktype(nd.get('t', '')):
                if nd['c'] and not nd.get('cc'):
                    m = lockid(self.g, i.ctx, nd['c'][0], args[0])
                    defer = any('defer_lock' in i.ctx.fn.nodes[c].get('t', '') for c in nd['c'][1:])
                    if not defer:
                        self.on_lock(i, ts, m, args[0], facts)
                        ts = ts | {(res, m, args[0])}
                    else:
                        ts = ts | {(res, '-' + m, args[0])}
            elif nd['k'] == 'call' and ob is not None:
                sh = fn.split('::')[-1]
                ot = i.ctx.fn.nodes[nd['obj']].get('t', '')
                if is_locktype(ot) and sh in ('unlock', 'lock', 'release', 'try_lock'):
                    n = set()
                    for e in ts:
                        if self.same_lock(e[0], ob, facts):
                            m = e[1].lstrip('-')
                            if sh == 'lock' or sh == 'try_lock':
                                self.on_lock(i, ts, m, e[2], facts)
                                n.add((e[0], m, e[2]))
                            else: n.add((e[0], '-' + m, e[2]))
                        else: n.add(e)
                    ts = frozenset(n)
                elif is_mutex(ot):
                    m = lockid(self.g, i.ctx, nd['obj'], ob)
                    if sh in ('lock',):
                        self.on_lock(i, ts, m, ob, facts)
                        ts = ts | {(None, m, ob)}
                    elif sh == 'unlock':
                        ts = frozenset(e for e in ts if not (e[1] == m and e[0] is None))
                elif sh in ('wait', 'timed_wait', 'wait_for', 'wait_until') and 'condition' in fn:
                    self.on_wait(i, ts, facts)
                    # other threads ran: nothing read before still holds
                    facts = facts.killif(lambda x: any(s[0] in ('f', 'c', 'g', 'd', 'x') for s in subterms(x)))
        elif i.op == 'decl' and i.a[1] is not None:
            # the lock object lives in the variable
            v, init = i.a
            if any(e[0] == init for e in ts):
                ts = frozenset((v if e[0] == init else e[0], e[1], e[2]) for e in ts)
        elif i.op == 'dtor':
            ts = frozenset(e for e in ts if e[0] != i.a)
        elif i.op == 'delete':
            if ts and any(self.same_lock(e[0], i.a, facts) for e in ts):
                ts = frozenset(e for e in ts if not self.same_lock(e[0], i.a, facts))
        elif i.op == 'leave':
            # values returned by name
            pass
        yield ts, facts
    def same_lock(self, a, b, facts):
        if a is None: return False
        if a == b: return True
        return a in facts.alias(b) or b in facts.alias(a)
    def on_lock(self, i, ts, m, term, facts): pass
    def on_wait(self, i, ts, facts): pass

def held(ts):
    return frozenset(e[1] for e in ts if not e[1].startswith('-'))
