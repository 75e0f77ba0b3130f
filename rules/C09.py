"""C09: a part of a message that may be absent is only looked into when it is there."""
from mp.common import *
from mp.optional import optional_fields, MAYNULL, DEREF
from mp.report import Result
from rules.C08 import UnionFlow, roots, GDUGET, member, param_rooted, target_type
TECHNIQUE = 'path-sensitive must-facts dataflow over whole-program inlined control-flow graphs: presence of an optional part at every place that looks into it'

def origin_of(g):
    """{term: why} for access paths and call results that may be null"""
    opt = optional_fields(); out = {}
    for i in g.instrs:
        if i.op == 'acc' and i.n is not None and i.a[0] == 'f':
            nd = i.node
            if nd.get('k') == 'mem':
                c = strip_t(nd.get('cls') or '').replace('struct ', '')
                if (c, nd['n']) in opt: out[i.a] = '%s is optional' % nd['n']
        if i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            sh = fn.split('::')[-1]
            if sh in MAYNULL: out[res] = MAYNULL[sh]
        for t in alltermsof(i):
            for s in subterms(t):
                if s[0] == '?' and I0 in s[2:]: out[s] = 'it is null in one case'
                if s[0] == 'c' and s[1].split('::')[-1] in MAYNULL: out[s] = MAYNULL[s[1].split('::')[-1]]
                if s[0] == 'c' and s[1] == GDUGET: out[s] = 'the package may hold no message'
    return out

def vtype(i):
    if i.op == 'decl': return i.node.get('t', '') if i.node else ''
    return target_type(i) if i.node else ''

def alltermsof(i):
    if i.op == 'acc': yield i.a
    elif i.op == 'call':
        if i.a[1] is not None: yield i.a[1]
        for a in i.a[2]: yield a
    elif i.op in ('assign', 'decl', 'init', 'ret'):
        for a in i.a:
            if a is not None: yield a

def below(t):
    """pointers an access path looks through, without the last step"""
    while t[0] in ('f', 'd', 'x'):
        t = t[1]
        yield t

def looks(i, N):
    """maybe-null pointers that instruction i dereferences"""
    if i.op == 'acc' and i.n is not None:
        for t in below(i.a):
            if t in N: yield t
    elif i.op == 'call' and i.ctx.calls.get(i.n) is None:
        fn, ob, args, res = i.a
        sh = fn.split('::')[-1]
        ks = DEREF.get(sh, ())
        if (i.node.get('k') == 'ctor' and strip_t(i.node.get('t', '')).startswith(('std::basic_string', 'std::__cxx11::basic_string'))) or \
           (fn.startswith(('std::basic_string', 'std::__cxx11::basic_string')) and (i.node.get('op') in ('=', '+=', '==', '!=') or sh in ('append', 'assign', 'compare', 'find'))):
            pt = i.node.get('pt', [])
            ks = (0,) if len(args) == 1 or len(pt) > 1 and 'allocator' in pt[1] else ()        # (pointer, length) may be (null, 0)
        elif i.node.get('op') in ('==', '!=', '+') and any('basic_string' in p for p in i.node.get('pt', ())): ks = range(len(args))
        for k in ks:
            if k < len(args):
                a = args[k]
                while a[0] == 'b' and a[1] in ('+', '-'): a = a[2]      # a place inside the string
                if a in N: yield a

FRESH = {'odr_malloc', 'odr_strdup', 'odr_strdupn', 'odr_intdup', 'odr_booldup', 'odr_create_Odr_oct', 'odr_nullval', 'nmem_malloc', 'nmem_strdup', 'xmalloc', 'xmalloc_f', 'xstrdup', 'xstrdup_f', 'xrealloc_f',
         'z_ext_record_sutrs', 'z_ext_record_xml', 'z_ext_record_usmarc', 'z_ext_record_oid', 'zget_DefaultDiagFormat', 'zget_surrogateDiagRec', 'zget_init_diagnostics_octet', 'wrbuf_alloc', 'odr_createmem', 'odr_getoidbystr'}

LEAVES = {'yaz_sru_decode', 'yaz_srw_decode'}        # leave what they were given alone when they do not succeed

class OptFlow(UnionFlow):
    def __init__(self, g, N, inv=()):
        UnionFlow.__init__(self, g, {}, {}, {}); self.kept = inv; self.N = N; self.vars = set(t for t in N if t[0] == 'v')
        cnt = {}
        for i in g.instrs:
            if i.op == 'assume' and i.a[1]:
                t = i.a[0]
                while t[0] == '!': t = t[1]
                if t in N: cnt[t] = cnt.get(t, 0) + 1
        self.flagvars = set(self.flagvars) | set(t for t, n in cnt.items() if n > 1)

    def base(self, i, facts):
        f = UnionFlow.base(self, i, facts)
        if f is None: return None
        if i.op == 'assume':
            for a in f.s - facts.s:
                if a[0] == 'eq' and a[2] == 0: f = f.add([('own', b[2], 1) for b in f.s if b[0] == 'fill' and b[1] == a[1]])
            if f is not facts: f = f.add([('own', a[1], 1) for a in f.s - facts.s if a[0] == 'ne' and a[2] == 0 and a[1] in self.vars])
        elif i.op == 'call' and i.ctx.calls.get(i.n) is None:
            fn, ob, args, res = i.a
            sh = fn.split('::')[-1]
            if sh in FRESH: f = f.add([('ne', res, 0)])
            if sh not in LEAVES: f = f.add([('own', a[1], 1) for a in args if a[0] == 'addr' and a[1] in self.vars])       # the library fills it in
            else: f = f.add([('fill', res, a[1]) for a in args if a[0] == 'addr' and a[1] in self.vars] + [('own', args[1][1], 1) for x in (0,) if len(args) > 1 and args[1][0] == 'addr' and args[1][1] in self.vars])
            if False: pass
            elif fn == 'yazpp_1::GDU::GDU' and len(args) == 1:
                pt = strip_t((i.node.get('pt') or [''])[0]); got = ('c', GDUGET, res)
                if pt == 'Z_APDU *': f = f.add([('ne', got, 0)])
                elif pt == 'Z_GDU *':
                    if facts.nonnull(args[0]): f = f.add([('ne', got, 0)])
                elif self.full(args[0], facts): f = f.add([('ne', got, 0)])
        elif i.op in ('assign', 'decl', 'init', 'ret') and i.a[0] is not None and i.a[1] is not None:
            if i.a[0] in self.vars and (i.a[1] not in self.N and i.a[1] != I0 or ('own', i.a[1], 1) in facts.s or present(i.a[1], facts)): f = f.add([('own', i.a[0], 1)])
            if self.full(i.a[1], facts) or (i.node and facts.nonnull(i.a[1]) and i.op == 'assign' and 'GDU' in strip_t(target_type(i))): f = f.add([('ne', ('c', GDUGET, i.a[0]), 0)])
        elif i.op == 'decl' and i.a[0] in self.vars and i.a[1] is None: f = f.add([('own', i.a[0], 1)])
        elif i.op == 'acc' and i.a[0] == 'f' and i.a[2] in self.kept: f = f.add([('ne', ('c', GDUGET, i.a), 0)])
        return f
    def entry_facts(self):
        ps = set(p['d'] for p in self.g.root.params)
        return [('own', v, 1) for v in self.vars if v[3] == 0 and v[2] in ps]
    def full(self, t, facts):
        """a message object that holds a message"""
        return facts.nonnull(('c', GDUGET, t))

def run(P, tier):
    R = Result('every place that looks into a part the protocol marks as optional, into the message of a package, or into a result a library function may not deliver, is reached only with that part known to be there')
    UnionFlow.multi = set()
    todo = []; kept = {}; seenfn = {}
    for r in roots(P) + [f for f in P.fns.values() if f.short in ('configure', 'start') and f.raw.get('overn')]:
        g = graph(P, r, cross=True)
        N = origin_of(g)
        # variables that keep such a pointer
        for i in g.instrs:
            if i.op in ('assign', 'decl', 'init') and i.a[0] is not None and i.a[0][0] == 'v' and i.a[1] == I0 and is_ptr(vtype(i)): N.setdefault(i.a[0], 'it starts out as null')
        n = -1
        while n != len(N):
            n = len(N)
            for i in g.instrs:
                if i.op in ('assign', 'decl', 'init') and i.a[0] is not None and i.a[0][0] == 'v' and i.a[1] in N and not (i.node and i.node.get('k') == 'call') and is_ptr(vtype(i)): N.setdefault(i.a[0], N[i.a[1]])
        sites = [(i, t) for i in g.instrs for t in looks(i, N)]
        made = set(i.a[3] for i in g.instrs if i.op == 'call' and i.a[0] == 'yazpp_1::GDU::GDU' and i.a[2])
        keeps = [i for i in g.instrs if i.op in ('assign', 'init') and i.a[0] is not None and i.a[0][0] == 'f' and ((i.node and 'GDU' in strip_t(target_type(i) or '')) or i.a[1] in made)]
        if not sites and not keeps: continue
        R.functions |= set(c.fn.key for c in g.ctxs); R.count('entry_points')
        fl = None
        if keeps:
            fl = OptFlow(g, N).run()
            for i in keeps:
                for ts, f, k in fl.transfer(i): kept[i.a[0][2]] = kept.get(i.a[0][2], True) and f.nonnull(('c', GDUGET, i.a[0]))
        todo.append((g, fl, sites, N))
    inv = set(k for k, v in kept.items() if v)
    R.count('kept_messages', len(inv))
    for g, fl, sites, N in todo:
        if fl is None: fl = OptFlow(g, N, inv).run(); done = True
        else: done = not any(i.op == 'acc' and i.a[0] == 'f' and i.a[2] in inv for i in g.instrs)
        bad = judge(g, fl, sites, N, R)
        if bad and not done:
            fl = OptFlow(g, N, inv).run()
            bad = judge(g, fl, sites, N, R)
        for i, t in sites:
            R.ob((i.ctx.fn.key, i.n, show(t)), 'use of %s at %s' % (show(t)[-40:], i.loc())); R.count('uses')
        for i, t, ts in bad:
            R.violation('C09|%s|%s' % (i.ctx.fn.name, show(t)[-40:]), i.loc(), '%s looks into %s without having established that it is there: %s' % (short(i.ctx.fn.name), show(t)[-70:], N[t]), callstack(i) + fl.path(i, ts))
    R.need('entry_points', 10); R.need('uses', 100)
    return R

def judge(g, fl, sites, N, R):
    bad = []
    for i, t in dict.fromkeys(sites):
        for ts, f in fl.at(i):
            if present(t, f): continue
            if t[0] == 'v':
                if ('own', t, 1) in f.s: continue
                d = f.defs().get(t)
                if d is not None and present(d, f): continue
            if param_rooted(t, g) and not g.root.raw.get('overn') and not g.root.callers:
                R.count('documented_arguments'); break
            bad.append((i, t, ts)); break
    return bad

def present(t, f):
    if f.nonnull(t): return True
    if t[0] == 'f':     # a list with elements
        n = ('f', t[1], 'num_' + t[2])
        if f.evalcond(n) or (f.lower(n) or 0) > 0: return True
        if any(a[0] == 'lt' and a[2] == n for a in f.s): return True
    return False
