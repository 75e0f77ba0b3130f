"""Helpers shared by the rules."""
from .flow import *
from .locks import *

CONFIG_TIME = ('configure', 'start')

def referenced_fns(P):
    """functions whose address is taken or that are called from anywhere in the repository"""
    ref = set()
    for f in P.fns.values():
        for n in f.nodes:
            k = n.get('key')
            if k: ref.add(k)
    for g in P.globals.values():
        for n in g.get('nodes', []):
            if n.get('key'): ref.add(n['key'])
    return ref

def addr_taken_fns(P):
    out = set()
    for f in P.fns.values():
        for n in f.nodes:
            if n.get('k') in ('ref', 'methref') and not n.get('callee') and n.get('key') in P.fns:
                # a plain reference that is not the callee of a call (callees are not lowered as nodes)
                out.add(n['key'])
    for g in P.globals.values():
        for n in g.get('nodes', []):
            if n.get('key'): out.add(n['key'])
    return out

def filter_creators(P):
    out = set()
    for g in P.globals.values():
        if 'metaproxy_1_filter_struct' in g['t']:
            for n in g.get('nodes', []):
                if n.get('key'): out.add(n['key'])
    return out

def same_tu_callers(f):
    return [c for c, n in f.callers if c.tu == f.tu and c is not f and n.get('k') in ('call', 'ctor')]

def runtime_roots(P, all_api=True):
    """entry points that run while requests are served: virtual overrides, functions whose address
    is handed out, and functions with no caller in their own unit that other units can call.
    Constructors, destructors and configuration-time functions are excluded."""
    at = addr_taken_fns(P) - filter_creators(P)
    roots = []
    for f in P.fns.values():
        if f.raw.get('lambda'): continue
        if f.raw['ctor'] or f.raw['dtor']: continue
        if config_only(P, f): continue
        if f.name == 'main': continue
        c = same_tu_callers(f)
        if f.raw.get('overn') or f.key in at: roots.append(f); continue
        if c: continue
        if f.file.endswith('.cpp') and not f.callers:
            # uncalled method of a class private to a .cpp file: dead code
            if f.short == 'operator()':      # thread body objects
                roots.append(f); continue
            r = P.recs.get(f.cls) if f.cls else None
            if f.cls and r is not None and r['file'].endswith('.cpp'): continue
            if not f.raw.get('link'): continue
        if in_filter_class(P, f): continue
        roots.append(f)
    return roots

def derives(P, cls, base, depth=0):
    if cls == base: return True
    r = P.recs.get(cls)
    if not r or depth > 6: return False
    return any(derives(P, b, base, depth + 1) for b in r.get('bases', []))

def in_filter_class(P, f):
    '''plain public method of a filter class: part of its set-up interface'''
    return bool(f.cls) and derives(P, f.cls, 'metaproxy_1::filter::Base')

_cfg = {}
def config_only(P, f, seen=None):
    """only ever called (transitively) from configuration, construction, start-up"""
    if f.key in _cfg: return _cfg[f.key]
    if seen is None: seen = set()
    if f.key in seen: return True
    seen.add(f.key)
    r = None
    if any(o.endswith(('filter::Base::configure', 'filter::Base::start')) for o in f.raw.get('overn', [])):
        r = True
    elif f.raw['ctor'] or f.raw['dtor'] or f.name == 'main': r = True
    elif f.raw.get('overn'): r = False
    else:
        cs = [c for c, n in f.callers if n.get('k') in ('call', 'ctor')]
        r = bool(cs) and all(config_only(P, c, seen) for c in cs)
    _cfg[f.key] = r
    return r

READS = {'find', 'begin', 'end', 'size', 'empty', 'at', 'front', 'back', 'c_str', 'length', 'count', 'rbegin', 'rend',
         'get', 'operator->', 'operator*', 'lower_bound', 'upper_bound', 'str', 'data', 'compare', 'substr', 'id',
         'is_closed', 'operator bool', 'operator==', 'lock', 'unlock'}

def written_terms(g, reach=None):
    """terms that an instruction of g may modify (assignment, mutating method, passed by mutable reference)"""
    W = {}
    def add(t, i):
        W.setdefault(t, i)
    for i in g.instrs:
        if reach is not None and i.id not in reach: continue
        if i.op in ('assign', 'init'):
            t = i.a[0]
            if t:
                add(t, i)
        elif i.op == 'delete': add(i.a, i)
        elif i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            sh = fn.split('::')[-1]
            if ob is not None and i.node['k'] == 'call' and not i.node.get('const') and sh not in READS \
               and i.node.get('op') not in ('->', '*', '==', '!=', '<'):
                add(ob, i)
            pts = i.node.get('pt', [])
            for k, a in enumerate(args):
                pt = pts[k] if k < len(pts) else ''
                if a[0] == 'addr' and not pt.startswith('const '): add(a[1], i)
                elif pt.endswith('&') and not pt.startswith('const ') and a[0] in ('f', 'x', 'g', 'd'): add(a, i)
    return W

_graphs = {}
def graph(P, f, **kw):
    k = (f.key, tuple(sorted(kw.items())))
    g = _graphs.get(k)
    if g is None: g = _graphs[k] = Graph(P, f, **kw)
    return g

def short(t):
    return t.replace('metaproxy_1::filter::', '').replace('metaproxy_1::', '')

def callstack(i):
    out = []; c = i.ctx
    while c.parent is not None:
        out.append('called from %s (%s)' % (c.parent.fn.loc(c.parent.fn.nodes[c.site].get('l')), short(c.parent.fn.name)))
        c = c.parent
    return out

def near_assert(i, depth=12):
    """the value read here only decides an assertion"""
    seen = {i.id}; st = [(i, 0)]
    while st:
        x, d = st.pop()
        for s in x.succ:
            if s.op == 'call' and s.a[0] == '__assert_fail': return True
            if s.id not in seen and d < depth and s.op in ('acc', 'assume', 'nop', 'call'):
                if s.op == 'call' and s.a[0]: pass
                seen.add(s.id); st.append((s, d + 1))
    return False
