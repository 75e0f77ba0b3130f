from mp.common import *
from mp.report import Result
from collections import defaultdict
TECHNIQUE = 'lock-set dataflow over inlined control-flow graphs'
LEVEL = 'other'

# Classes whose objects are reachable from several worker threads although they are neither the filter
# object itself nor own a mutex: one line of reason each.  A name that no longer exists is skipped.
SHARED_ELEMS = {
    'metaproxy_1::filter::Limit::Ses': 'per-session counters, several packages of one session may run at once',
    'metaproxy_1::filter::LoadBalance::Impl::TargetStat': 'per-target statistics, shared by all sessions',
}
# single fields of otherwise session- or holder-confined objects
SHARED_FIELDS = {
    ('metaproxy_1::filter::SessionShared::BackendInstance', 'm_in_use'): 'allocation flag of pooled back-end sessions',
    ('metaproxy_1::filter::SessionShared::BackendInstance', 'm_sequence_this'): 'allocation order',
    ('metaproxy_1::filter::SessionShared::BackendInstance', 'm_sets'): 'searched by every front end',
    ('metaproxy_1::filter::SessionShared::Frontend', 'm_in_use'): 'session busy flag',
    ('metaproxy_1::filter::Multi::Frontend', 'm_in_use'): 'session busy flag',
    ('metaproxy_1::filter::VirtualDB::Frontend', 'm_in_use'): 'session busy flag',
    ('metaproxy_1::filter::Sort::Frontend', 'm_in_use'): 'session busy flag',
    ('metaproxy_1::filter::SRUtoZ3950::Frontend', 'm_in_use'): 'session busy flag',
    ('metaproxy_1::filter::Zoom::Frontend', 'm_in_use'): 'session busy flag',
    ('metaproxy_1::filter::Z3950Client::Assoc', 'm_in_use'): 'connection busy flag',
    ('metaproxy_1::filter::Z3950Client::Assoc', 'm_queue_len'): 'number of waiting packages',
}
# classes that run on the event-loop thread only (the process() of the network front end is that loop)
SINGLE_THREAD = ('metaproxy_1::filter::FrontendNet', 'metaproxy_1::ThreadPoolPackage', 'metaproxy_1::ZAssocChild',
                 'metaproxy_1::ZAssocServer', 'metaproxy_1::My_Timer_Thread')
SYNC_TYPES = ('mutex', 'condition', 'boost::thread_group', 'atomic', 'once_flag')

def exempt_type(t):
    return any(s in t for s in SYNC_TYPES)

def run(P, tier):
    R = Result('every access to state shared between worker threads and modified while serving requests holds one common mutex')
    R.assumptions = ['the process() of every filter except the network front end may run on many threads at once',
                     'configuration, construction and destruction of a filter happen before/after requests are served',
                     'an object stored in a per-session table is used only by the package that holds its busy flag (C04)']
    mutexcls = set()
    for n, r in P.recs.items():
        if r['own'] and any(is_mutex(f['t']) for f in r['fields']): mutexcls.add(n)
    shared = mutexcls | set(c for c in SHARED_ELEMS if c in P.recs)
    roots = [f for f in runtime_roots(P) if not (f.cls or '').startswith(SINGLE_THREAD)
             and not f.file.endswith('metaproxy_prog.cpp')]
    acc = defaultdict(list)      # (cls, field) -> [(held, lockterms, instr, root, basematch)]
    wr = defaultdict(list)
    for r in roots:
        g = graph(P, r); fl = LockFlow(g).run(); reach = set(fl.states)
        W = written_terms(g, reach)
        is_proc = any(o.endswith('filter::Base::process') for o in r.raw.get('overn', []))
        for i in g.instrs:
            if i.op != 'acc' or i.id not in reach: continue
            nd = i.node; t = i.a
            if nd['k'] == 'ref':
                # global or function-static variable
                if nd.get('t', '').startswith('const ') or exempt_type(nd.get('t', '')): continue
                cls, fld = 'global', t[1]
                if not in_repo_global(P, i, nd): continue
            elif nd['k'] == 'mem':
                cls, fld = nd.get('cls', ''), nd['n']
                if not cls.startswith('metaproxy_1') and cls not in P.recs: continue
                if not P.recs.get(cls, {'own': cls.startswith('metaproxy_1')}).get('own'): continue
                if exempt_type(nd.get('t', '')): continue
                b = t
                while b[0] == 'f': b = b[1]
                filter_shared = is_proc and b == ('this', 0)
                if not (filter_shared or cls in shared or (cls, fld) in SHARED_FIELDS): continue
                if ctor_of(i, t): continue
                if (cls, fld) in SHARED_FIELDS and near_assert(i): continue
            else: continue
            R.functions.add(i.ctx.fn.key)
            hs = None
            for ts, f in fl.at(i):
                h = held(ts)
                # a mutex owned by the same class must belong to the same object
                ok = set()
                for (v, m, mt) in ts:
                    if m.startswith('-'): continue
                    if cls != 'global' and m.rsplit('::', 1)[0] == cls and mt[0] == 'f' and t[0] == 'f':
                        if mt[1] != t[1] and not (set(f.alias(mt[1])) & set(f.alias(t[1]))): continue
                    ok.add(m)
                hs = ok if hs is None else hs & ok
            if hs is None: continue
            if nd['k'] == 'mem' and is_stream(nd.get('t', '')):
                # the pointer itself never changes; what is shared is the stream behind it
                if not feeds_output(g, i): continue
                acc[(cls, fld)].append((frozenset(hs), i, r)); wr[(cls, fld)].append((i, r))
                continue
            acc[(cls, fld)].append((frozenset(hs), i, r))
            w = W.get(t)
            ptr = is_smart(nd.get('t', '')) or is_ptr(nd.get('t', ''))
            if w is not None and ptr and w.op == 'call' and w.a[0].split('::')[-1] not in ('reset', 'swap'): w = None
            if w is not None or (not ptr and prefix_written(t, W)): wr[(cls, fld)].append((i, r))
    for key, l in sorted(acc.items()):
        if key not in wr: continue
        cls, fld = key
        R.count('shared_fields')
        # the guarding mutex: the one held at most access sites
        votes = defaultdict(int)
        for h, i, r in l:
            for m in h: votes[m] += 1
        m = max(votes, key=lambda k: (votes[k], k)) if votes else None
        for h, i, r in l:
            ident = (cls, fld, i.ctx.fn.key, i.n)
            R.ob(ident, '%s::%s at %s in %s holds %s' % (short(cls), fld, i.loc(), short(i.ctx.fn.name), short(m or 'no mutex')))
            R.count('accesses')
            if m is None or m not in h:
                R.violation('C01|%s::%s|%s' % (cls, fld, i.ctx.fn.name), i.loc(),
                            '%s accesses shared %s::%s without holding %s' % (short(i.ctx.fn.name), short(cls), fld, short(m) if m else 'any mutex'),
                            ['entry point: %s' % short(r.name)] + callstack(i) +
                            ['modified while serving requests at %s' % w.loc() for w, _ in wr[key][:3]])
    R.need('shared_fields', 10)
    R.need('accesses', 40)
    return R

def is_stream(t):
    return t in ('FILE *', 'struct _IO_FILE *', '_IO_FILE *')

def feeds_output(g, i):
    """the stream is handed to a call that writes part of a record (one flush is complete in itself)"""
    for nd in i.ctx.fn.parent_map().get(i.n, []):
        x = i.ctx.fn.nodes[nd]
        k = nd
        while x.get('k') in ('cast', 'paren'):
            p = i.ctx.fn.parent_map().get(k, [])
            if not p: break
            k = p[0]; x = i.ctx.fn.nodes[k]
        if x.get('k') == 'call' and x.get('fn', '').split('::')[-1] not in ('fflush', 'fclose', 'fileno', 'fseek', 'ftell'): return True
    return False

def prefix_written(t, W):
    """an element or member of t is modified (map[x].n++, list.front() = ..)"""
    for w in W:
        x = w
        while x[0] in ('f', 'x'):
            x = x[1]
            if x == t and w != t:
                # only container elements: members reached through pointers belong to other objects
                if w[0] == 'x': return True
    return False

def ctor_of(i, t):
    """access to a field of the object under construction/destruction"""
    c = i.ctx
    while c is not None:
        if (c.fn.raw['ctor'] or c.fn.raw['dtor']) and t[0] == 'f' and root_is(t, c.this): return True
        c = c.parent
    return False

def root_is(t, th):
    while t[0] == 'f':
        t = t[1]
        if t == th: return True
    return False

def in_repo_global(P, i, nd):
    qn = nd.get('qn', nd['n'])
    if nd['dk'] == 'static': return True
    return any(n == qn for (tu, n) in P.globals)
