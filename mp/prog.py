"""Resolved program model: functions, terms (access paths), inlined flow graph."""
import re, sys
from collections import defaultdict
from . import load
from .load import AnalysisError, REPO, VERIF

ASSIGN_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
SMART = ('boost::shared_ptr<', 'std::shared_ptr<', 'boost::scoped_ptr<', 'std::unique_ptr<',
         'boost::scoped_array<', 'boost::shared_array<', 'boost::intrusive_ptr<', 'std::auto_ptr<',
         'std::__shared_ptr', 'std::__shared_ptr_access<', 'boost::detail::')

def strip_t(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '): t = t[6:]
        if t.endswith('&'): t = t[:-1].strip()
        if t.endswith(' const'): t = t[:-6]
        if t.endswith('*const'): t = t[:-5]
        if t == o: return t

def is_smart(t):
    return strip_t(t).startswith(SMART)

def is_ref(t):
    return t.rstrip().endswith('&')

def is_ptr(t):
    return strip_t(t).endswith('*')

class Fn:
    __slots__ = ('raw', 'prog', 'tu', 'key', 'name', 'file', 'line', 'nodes', 'blocks', 'params', 'entry',
                 'exit', 'cls', 'ret', 'assigned', 'varinfo', 'callers', 'parents', '_calls', 'ownvars', 'addrtaken',
                 '_elem_of', 'short', 'own')
    def __init__(self, prog, tu, raw):
        self.prog = prog; self.tu = tu; self.raw = raw
        self.key = raw['key']; self.name = raw['name']
        self.file = raw['file']; self.line = raw['line']
        self.nodes = raw.get('nodes', [])
        self.blocks = {b['id']: b for b in raw.get('blocks', [])}
        self.entry = raw.get('entry'); self.exit = raw.get('exit')
        self.params = raw['params']; self.cls = raw.get('cls'); self.ret = raw['ret']
        self.short = self.name.split('::')[-1]
        self._calls = None; self._elem_of = None; self.parents = None
        self.callers = []
        self.scan()
    def __repr__(self):
        return '<Fn %s>' % self.name
    def loc(self, line=None):
        f = self.file
        if f.startswith('/@R/'): f = f[4:]
        return '%s:%d' % (f, line or self.line)
    def scan(self):
        asg = defaultdict(int); addr = set(); self.varinfo = {}
        self.ownvars = set(p['d'] for p in self.params)
        for p in self.params:
            self.varinfo[p['d']] = p
        N = self.nodes
        for n in N:
            k = n.get('k')
            if k == 'decl':
                for v in n['vars']:
                    self.varinfo[v['d']] = v
                    self.ownvars.add(v['d'])
            elif k == 'bin' and n['op'] in ASSIGN_OPS:
                l = N[n['c'][0]]
                if l.get('k') == 'ref': asg[l['d']] += 1
            elif k == 'un':
                l = N[n['c'][0]]
                if l.get('k') == 'ref':
                    if n['op'] in ('++', '--', 'p++', 'p--'): asg[l['d']] += 1
                    elif n['op'] == '&': addr.add(l['d'])
            elif k in ('call', 'ctor'):
                pts = n.get('pt', [])
                for i, c in enumerate(n.get('c', [])):
                    if c < 0: continue
                    l = N[c]
                    if l.get('k') == 'ref' and i < len(pts):
                        p = pts[i]
                        if p.endswith('&') and not p.startswith('const ') and not p.endswith('const &'):
                            addr.add(l['d'])
                ob = n.get('obj')
                if ob is not None and ob >= 0 and N[ob].get('k') == 'ref':
                    if n.get('op') in ASSIGN_OPS or n.get('op') in ('++', '--'):
                        asg[N[ob]['d']] += 1
                    elif n.get('fn', '').endswith(('::reset', '::swap')):
                        asg[N[ob]['d']] += 1
        self.assigned = asg; self.addrtaken = addr
    def single(self, d):
        return self.assigned.get(d, 0) == 0 and d not in self.addrtaken
    def calls(self):
        if self._calls is None:
            self._calls = [n for n in self.nodes if n.get('k') in ('call', 'ctor')]
        return self._calls
    def rpo(self):
        seen = set(); out = []
        st = [(self.entry, iter(self.blocks[self.entry]['s']))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x is not None and x not in seen:
                    seen.add(x); st.append((x, iter(self.blocks[x]['s'])))
                    break
            else:
                out.append(b); st.pop()
        out.reverse()
        return out
    def parent_map(self):
        if self.parents is None:
            self.parents = defaultdict(list)
            for i, n in enumerate(self.nodes):
                for c in n.get('c', []):
                    self.parents[c].append(i)
                if n.get('obj', -1) is not None and n.get('obj', -1) >= 0:
                    self.parents[n['obj']].append(i)
                for v in n.get('vars', []):
                    if v['init'] >= 0: self.parents[v['init']].append(i)
        return self.parents

class Program:
    def __init__(self):
        self.tus = load.load_raw()
        self.fns = {}; self.recs = {}; self.globals = {}; self.byname = defaultdict(list)
        self.methods_of = defaultdict(list)
        self.overrides = defaultdict(list)
        self.tu_errors = []
        for i, tu in enumerate(self.tus):
            if tu['errors']:
                self.tu_errors.append(tu['tu'])
            for f in tu['fns']:
                if 'blocks' not in f or f['key'] in self.fns: continue
                fn = Fn(self, i, f)
                self.fns[fn.key] = fn
                self.byname[fn.name].append(fn)
                if fn.cls: self.methods_of[fn.cls].append(fn)
                for o in f.get('over', []):
                    self.overrides[o].append(fn)
            for r in tu['recs']:
                self.recs.setdefault(r['name'], r)
            for g in tu['globals']:
                self.globals.setdefault((i, g['name']), g)
        for fn in self.fns.values():
            for n in fn.nodes:
                k = n.get('key')
                if k in self.fns:
                    self.fns[k].callers.append((fn, n))
    def fn(self, qn):
        l = self.byname.get(qn)
        return l[0] if l else None
    def src_fns(self):
        return [f for f in self.fns.values()]
    def filter_process_fns(self):
        """all implementations of the filter processing interface"""
        return [f for f in self.fns.values()
                if any(o.endswith('filter::Base::process') for o in f.raw.get('overn', []))]
    def configure_fns(self):
        return [f for f in self.fns.values()
                if any(o.endswith('filter::Base::configure') for o in f.raw.get('overn', []))]

# ---------------------------------------------------------------- terms
# ('v', tu, decl, ctxid, name)  ('g', qn)  ('this', ctxid)  ('f', base, name)
# ('d', ptr) ('addr', x) ('x', base, idx) ('c', fn, obj, args...) ('t', ctxid, node)
# ('r', ctxid) ('i', n) ('s', str) ('b', op, l, r) ('!', t) ('?', c, a, b) ('fn', key)

def show(t):
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if k == 'v': return t[4]
    if k == 'g': return t[1]
    if k == 'this': return 'this'
    if k == 'f':
        if t[1][0] == 'this': return t[2]
        return show(t[1]) + '.' + t[2]
    if k == 'd': return '*' + show(t[1])
    if k == 'addr': return '&' + show(t[1])
    if k == 'x': return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'c': return '%s%s(%s)' % (show(t[2]) + '.' if t[2] else '', t[1].split('::')[-1], ', '.join(show(x) for x in t[3:]))
    if k == 't': return '<tmp%d>' % t[2]
    if k == 'r': return '<ret%d>' % t[1]
    if k == 'i': return str(t[1])
    if k == 's': return '"%s"' % t[1]
    if k == 'b': return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == '!': return '!' + show(t[1])
    if k == '?': return '(%s ? %s : %s)' % tuple(show(x) for x in t[1:4])
    if k == 'fn': return t[1]
    return str(t)

def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from subterms(x)

_contains_cache = {}
def contains(t, s):
    if t == s: return True
    if not isinstance(t, tuple): return False
    k = (t, s)
    r = _contains_cache.get(k)
    if r is None:
        r = any(contains(x, s) for x in t[1:] if isinstance(x, tuple))
        _contains_cache[k] = r
    return r

def root_of(t):
    while isinstance(t, tuple) and t[0] in ('f', 'd', 'x', 'addr'):
        t = t[1]
    return t

def subst(t, a, b):
    if t == a: return b
    if not isinstance(t, tuple): return t
    return norm(tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t))

def norm(t):
    if t[0] == 'f' and t[1][0] == 'addr': return ('f', t[1][1], t[2])
    if t[0] == 'd' and t[1][0] == 'addr': return t[1][1]
    if t[0] == 'addr' and t[1][0] == 'd': return t[1][1]
    if t[0] == 'x' and t[1][0] == 'addr' and t[2] == ('i', 0): return t[1][1]
    return t

PATHY = {'v', 'g', 'this', 'f', 'd', 'x', 'c', 'i', 's', 'addr', 'fn'}
def is_path(t):
    return isinstance(t, tuple) and t[0] in PATHY and all(is_path(x) for x in t[1:] if isinstance(x, tuple))

# zero-argument observers that return the same thing until the object is changed
GETTERS = {'request', 'response', 'session', 'origin', 'get', 'c_str', 'size', 'empty', 'end', 'length', 'data',
           'begin', 'is_closed', 'id', 'str', 'router', 'cend', 'cbegin'}

class Ctx:
    """one (virtual) activation of a function in an inlined flow graph"""
    __slots__ = ('id', 'fn', 'parent', 'site', 'bind', 'this', 'memo', 'depth', 'retnode', 'calls')
    def __init__(self, id, fn, parent=None, site=None):
        self.id = id; self.fn = fn; self.parent = parent; self.site = site
        self.bind = {}; self.this = ('this', id) ; self.memo = {}
        self.depth = 0 if parent is None else parent.depth + 1
        self.calls = {}   # call node -> child ctx (when inlined)
    def chain(self):
        c = self; out = []
        while c: out.append(c.fn.key); c = c.parent
        return out
    def owner(self, d):
        c = self
        while c is not None:
            if d in c.fn.ownvars and c.fn.tu == self.fn.tu: return c
            c = c.parent
        return self

class Instr:
    __slots__ = ('id', 'op', 'ctx', 'n', 'node', 'line', 'a', 'succ', 'pred')
    def __init__(self, id, op, ctx, n=None, node=None, line=0, a=None):
        self.id = id; self.op = op; self.ctx = ctx; self.n = n; self.node = node; self.line = line
        self.a = a; self.succ = []; self.pred = []
    def loc(self):
        return self.ctx.fn.loc(self.line)
    def __repr__(self):
        return '<%d %s %s %s>' % (self.id, self.op, self.loc(), self.a)

class Graph:
    """flow graph of `root` with repository-internal helpers of the same
    translation unit virtually inlined"""
    def __init__(self, prog, root, inline=True, maxdepth=8, maxinstr=200000, opaque=None, keep=None, nobind=False, cross=False, uses=False):
        self.uses = uses         # report reads of local variables ('use') too
        self.cross = cross       # inline functions of other translation units too
        self.prog = prog; self.root = root
        self.instrs = []; self.ctxs = []
        self.inline = inline; self.maxdepth = maxdepth; self.maxinstr = maxinstr
        self.opaque = opaque or (lambda fn: False)
        self.nobind = nobind     # bind references only: values are tracked by the analysis
        self.exitnode = None
        self.throwexit = None
        self.build()
    def new(self, *a, **k):
        i = Instr(len(self.instrs), *a, **k)
        self.instrs.append(i)
        return i
    def link(self, a, b):
        a.succ.append(b); b.pred.append(a)
    def can_inline(self, ctx, n):
        if not self.inline: return None
        key = n.get('key')
        fn = self.prog.fns.get(key)
        if not fn or not fn.blocks: return None
        if n.get('virt') and not n.get('qual') and n.get('k') == 'call':
            # class-hierarchy: no override elsewhere
            if self.prog.overrides.get(key): return None
        if not self.cross and fn.tu != ctx.fn.tu and not fn.file.endswith('.hpp'): return None
        if n.get('k') == 'call' and fn.raw.get('virt') and not n.get('qual') and fn.short in ('process', 'configure', 'start', 'stop'):
            return None
        if self.opaque(fn): return None
        if fn.key in ctx.chain(): return None
        if ctx.depth >= self.maxdepth: return None
        if len(self.instrs) > self.maxinstr: return None
        return fn
    # ---- terms
    def term(self, ctx, n):
        if n is None or n < 0: return ('i', 0) if n is None else ('t', ctx.id, -1)
        m = ctx.memo.get(n)
        if m is None:
            ctx.memo[n] = ('t', ctx.id, n)
            m = self._term(ctx, n)
            ctx.memo[n] = m
        return m
    def varterm(self, ctx, node, d, name):
        o = ctx.owner(d)
        b = o.bind.get(d)
        if b is not None: return b
        return ('v', o.fn.tu, d, o.id, name)
    def _term(self, ctx, n):
        nd = ctx.fn.nodes[n]
        k = nd.get('k')
        if k == 'ref':
            dk = nd['dk']
            if dk in ('var', 'param'):
                return self.varterm(ctx, nd, nd['d'], nd['n'])
            if dk in ('global', 'static'): return ('g', nd.get('qn', nd['n']))
            if dk == 'enum': return ('i', nd.get('cv', 0))
            if dk == 'func': return ('fn', nd['key'])
            return ('g', nd.get('qn', nd['n']))
        if 'cv' in nd and k in ('int', 'sizeof', 'bin', 'un', 'cast', 'cond'):
            return ('i', nd['cv'])
        if k == 'int': return ('i', nd.get('cv', nd.get('chr', 0)))
        if k == 'bool': return ('i', 1 if nd['v'] else 0)
        if k == 'null' or k == 'zero': return ('i', 0)
        if k == 'str': return ('s', nd['v'])
        if k == 'this': return ctx.this
        if k == 'mem':
            b = self.term(ctx, nd['c'][0])
            return norm(('f', b, nd['n']))
        if k == 'un':
            s = self.term(ctx, nd['c'][0])
            op = nd['op']
            if op == '*': return norm(('d', s))
            if op == '&': return norm(('addr', s))
            if op == '!':
                return s[1] if s[0] == '!' and False else ('!', s)
            if op == '-': return ('i', -s[1]) if s[0] == 'i' else ('b', '-', ('i', 0), s)
            if op in ('++', '--'): return s
            if op in ('p++', 'p--'): return ('t', ctx.id, n)
            return ('b', op, ('i', 0), s)
        if k == 'bin':
            op = nd['op']
            if op in ASSIGN_OPS: return self.term(ctx, nd['c'][0])
            if op == ',': return self.term(ctx, nd['c'][1])
            return ('b', op, self.term(ctx, nd['c'][0]), self.term(ctx, nd['c'][1]))
        if k == 'cond':
            return ('?',) + tuple(self.term(ctx, c) for c in nd['c'])
        if k == 'idx':
            return norm(('x', self.term(ctx, nd['c'][0]), self.term(ctx, nd['c'][1])))
        if k == 'cast':
            s = self.term(ctx, nd['c'][0])
            if nd.get('dyn'): return ('c', 'dynamic_cast', s)
            if self.nobind and s[0] != 'i':
                w = WIDTH.get(strip_t(nd.get('t', ''))); o = WIDTH.get(strip_t(ctx.fn.nodes[nd['c'][0]].get('t', '')))
                if w and o and w < o: return ('c', 'narrow%d' % w, s)
            return s
        if k == 'ctor':
            if nd.get('cc') and len(nd['c']) >= 1:
                return self.term(ctx, nd['c'][0])
            t = nd.get('t', '')
            if is_smart(t):
                return self.term(ctx, nd['c'][0]) if nd['c'] else ('i', 0)
            if 'iterator<' in t and nd['c']:
                return self.term(ctx, nd['c'][0])
            return ('t', ctx.id, n)
        if k == 'call':
            ob = nd.get('obj')
            op = nd.get('op')
            fn = nd.get('fn', '')
            sh = fn.split('::')[-1]
            if self.nobind and ctx.calls.get(n) is not None:
                r = self.simple_result(ctx.calls[n])
                return r if r is not None else ('r', ctx.calls[n].id)
            if op and ob is not None:
                ot = ctx.fn.nodes[ob].get('t', '')
                if op in ('->', '*') and not nd['c']:
                    t = self.term(ctx, ob)
                    if is_smart(ot): return t if op == '->' else t
                    return norm(('d', t)) if op == '*' else t if not t[0] == 'addr' else t[1]
                if op == '[]':
                    return ('x', self.term(ctx, ob), self.term(ctx, nd['c'][0]))
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    return ('b', op, self.term(ctx, ob), self.term(ctx, nd['c'][0]))
                if op == '!': return ('!', self.term(ctx, ob))
                if op in ASSIGN_OPS: return self.term(ctx, ob)
                if op == '++' or op == '--':
                    return self.term(ctx, ob) if not nd['c'] else ('t', ctx.id, n)
            if op in ('==', '!=', '<', '>', '<=', '>=') and len(nd['c']) == 2:
                return ('b', op, self.term(ctx, nd['c'][0]), self.term(ctx, nd['c'][1]))
            if ob is not None:
                ot = ctx.fn.nodes[ob].get('t', '')
                if is_smart(ot) and sh in ('get', 'operator bool'): return self.term(ctx, ob)
                if sh.startswith('operator ') : return self.term(ctx, ob)
            # inlined helper with a single path-like result: transparent
            child = ctx.calls.get(n)
            if child is not None:
                r = self.simple_result(child)
                if r is not None: return r
                return ('r', child.id)
            if ob is not None and not nd['c']:
                if sh in GETTERS or nd.get('const'):
                    return ('c', fn, self.term(ctx, ob))
            if ob is not None and nd.get('const'):
                args = tuple(self.term(ctx, c) for c in nd['c'])
                return ('c', fn, self.term(ctx, ob)) + args
            if sh in ('move', 'forward', 'addressof') and fn.startswith('std::') and nd['c']:
                return self.term(ctx, nd['c'][0])
            if fn in PURE_FUNCS:
                return ('c', fn, None) + tuple(self.term(ctx, c) for c in nd['c'])
            return ('t', ctx.id, n)
        if k == 'lambda': return ('fn', nd['key'])
        return ('t', ctx.id, n)
    def simple_result(self, child):
        rets = [nd for nd in child.fn.nodes if nd.get('k') == 'return']
        if len(rets) != 1 or 'c' not in rets[0]: return None
        r = self.term(child, rets[0]['c'][0])
        if is_path(r) and not any(s[0] == 'v' and s[3] == child.id for s in subterms(r)): return r
        return None
    # ---- building
    def build(self):
        c = self.mkctx(self.root, None, None)
        self.entry = self.new('start', c, line=self.root.line)
        self.exitnode = self.new('exit', c, line=self.root.raw.get('eline', self.root.line))
        self.throwexit = self.new('throwexit', c, line=self.root.line)
        self.emit_fn(c, self.entry, self.exitnode)
    def mkctx(self, fn, parent, site):
        c = Ctx(len(self.ctxs), fn, parent, site)
        self.ctxs.append(c)
        return c
    def emit_fn(self, ctx, start, end):
        fn = ctx.fn
        if parent_this(fn) and ctx.parent is None:
            ctx.this = ('this', 0)
        heads = {}
        for bid in fn.blocks:
            heads[bid] = self.new('nop', ctx)
        self.link(start, heads[fn.entry])
        for bid in fn.rpo():
            b = fn.blocks[bid]
            cur = heads[bid]
            if bid == fn.exit:
                self.link(cur, end)
                continue
            dead = False
            for e in b['e']:
                cur = self.emit_elem(ctx, e, cur)
                if cur is None:
                    dead = True
                    break
            if dead: continue
            succs = b['s']
            if b.get('nr') and b.get('tk') is None and all(s == fn.exit for s in succs if s is not None):
                # throw / noreturn
                self.link(cur, self.throwexit)
                continue
            tk = b.get('tk')
            if tk == 'SwitchStmt' and 'tc' in b:
                ct = self.term(ctx, b['tc'])
                vals = []
                for s in succs:
                    if s is None: continue
                    sb = fn.blocks[s]
                    if 'case' in sb: vals.append(sb['case'])
                for s in succs:
                    if s is None: continue
                    sb = fn.blocks[s]
                    if 'case' in sb:
                        a = self.new('assume', ctx, n=b['tc'], line=b.get('ll', b.get('tl', 0)) , a=(('b', '==', ct, ('i', sb['case'])), True))
                    else:
                        a = self.new('assume', ctx, n=b['tc'], line=b.get('tl', 0), a=(('notin', ct, tuple(vals)), True))
                    self.link(cur, a); self.link(a, heads[s])
            elif len(succs) == 2 and 'tc' in b and tk != 'CXXTryStmt':
                ct = self.term(ctx, b['tc'])
                for s, pol in zip(succs, (True, False)):
                    if s is None: continue
                    a = self.new('assume', ctx, n=b['tc'], line=fn.nodes[b['tc']].get('l', 0), a=(ct, pol))
                    self.link(cur, a); self.link(a, heads[s])
            else:
                for s in succs:
                    if s is None: continue
                    self.link(cur, heads[s])
    def maybe_bind(self, ctx, v, it):
        fn = ctx.fn; t = v['t']
        if is_ref(t) or (not self.nobind and fn.single(v['d']) and (is_ptr(t) or is_smart(t) or scalar_t(t))):
            if is_path(it): ctx.bind[v['d']] = it
    def emit_elem(self, ctx, e, cur):
        fn = ctx.fn
        def add(op, **k):
            nonlocal cur
            i = self.new(op, ctx, **k)
            self.link(cur, i); cur = i
            return i
        if 's' in e:
            n = e['s']; nd = fn.nodes[n]; k = nd.get('k'); line = nd.get('l', 0)
            if k == 'call' or k == 'ctor':
                callee = self.can_inline(ctx, nd)
                ob = self.term(ctx, nd['obj']) if nd.get('obj') is not None else None
                args = [self.term(ctx, c) for c in nd.get('c', [])]
                add('call', n=n, node=nd, line=line, a=(nd.get('fn', ''), ob, args, ('t', ctx.id, n)))
                if callee is not None:
                    cur = self.inline_call(ctx, n, nd, callee, ob, args, cur)
                ctx.memo.pop(n, None)
                if nd.get('nr') :
                    self.link(cur, self.throwexit)
                    return None
                if k == 'call' and callee is None and nd.get('obj') is not None and nd.get('fn', '').endswith('::reset') \
                   and is_smart(fn.nodes[nd['obj']].get('t', '')):
                    add('assign', n=n, node=nd, line=line, a=(ob, args[0] if args else ('i', 0)))
                elif k == 'call' and nd.get('op') in ASSIGN_OPS and nd.get('obj') is not None and callee is None:
                    add('assign', n=n, node=nd, line=line, a=(ob, args[0] if args and nd['op'] == '=' else ('t', ctx.id, n)))
                elif k == 'call' and nd.get('op') in ('++', '--') and nd.get('obj') is not None and callee is None:
                    add('assign', n=n, node=nd, line=line, a=(ob, ('t', ctx.id, n)))
            elif k == 'bin' and nd['op'] in ASSIGN_OPS:
                l = self.term(ctx, nd['c'][0])
                r = self.term(ctx, nd['c'][1])
                if nd['op'] != '=': r = ('b', nd['op'][:-1], l, r)
                add('assign', n=n, node=nd, line=line, a=(l, r))
            elif k == 'un' and nd['op'] in ('++', '--', 'p++', 'p--'):
                l = self.term(ctx, nd['c'][0])
                add('assign', n=n, node=nd, line=line, a=(l, ('b', nd['op'][-1], l, ('i', 1))))
            elif k == 'decl':
                for v in nd['vars']:
                    vt = ('v', fn.tu, v['d'], ctx.id, v['n'])
                    if v['init'] >= 0:
                        it = self.term(ctx, v['init'])
                        self.maybe_bind(ctx, v, it)
                        add('decl', n=n, node=v, line=v.get('l', line), a=(vt, it))
                    else:
                        add('decl', n=n, node=v, line=v.get('l', line), a=(vt, None))
            elif k == 'return':
                val = self.term(ctx, nd['c'][0]) if nd.get('c') else None
                add('ret', n=n, node=nd, line=line, a=(('r', ctx.id), val))
            elif k == 'throw':
                add('throw', n=n, node=nd, line=line)
                self.link(cur, self.throwexit)
                return None
            elif k == 'mem':
                add('acc', n=n, node=nd, line=line, a=self.term(ctx, n))
            elif k == 'un' and nd['op'] == '*':
                add('acc', n=n, node=nd, line=line, a=self.term(ctx, n))
            elif k == 'idx':
                add('acc', n=n, node=nd, line=line, a=self.term(ctx, n))
            elif k == 'ref' and nd.get('dk') in ('global', 'static'):
                add('acc', n=n, node=nd, line=line, a=self.term(ctx, n))
            elif self.uses and k == 'ref' and nd.get('dk') in ('var', 'param'):
                add('use', n=n, node=nd, line=line, a=self.term(ctx, n))
            elif k == 'delete':
                add('delete', n=n, node=nd, line=line, a=self.term(ctx, nd['c'][0]))
            elif k == 'new':
                add('new', n=n, node=nd, line=line, a=('t', ctx.id, n))
        elif 'f' in e:
            add('init', n=e['i'], node=e, line=fn.nodes[e['i']].get('l', fn.line) if e['i'] >= 0 else fn.line,
                a=(('f', ctx.this, e['f']), self.term(ctx, e['i'])))
        elif 'dtor' in e:
            add('dtor', node=e, line=e.get('l', 0), a=('v', fn.tu, e['dtor'], ctx.id, e['n']))
        return cur
    def inline_call(self, ctx, n, nd, callee, ob, args, cur):
        child = self.mkctx(callee, ctx, n)
        ctx.calls[n] = child
        if callee.cls and not callee.raw.get('static') and not callee.raw.get('lambda'):
            if nd.get('k') == 'ctor': child.this = ('t', ctx.id, n)
            elif ob is not None:
                child.this = ob[1] if ob[0] == 'addr' else ob
                if self.nobind and ob[0] == 'd' and not is_ptr(ctx.fn.nodes[nd['obj']].get('t', '')) and not is_smart(ctx.fn.nodes[nd['obj']].get('t', '')):
                    child.this = ob[1]
        if callee.raw.get('lambda'):
            child.this = ctx.this
        ent = self.new('enter', child, n=n, node=nd, line=nd.get('l', 0))
        self.link(cur, ent)
        cur = ent
        for p, a in zip(callee.params, args):
            if is_ref(p['t']) or (not self.nobind and callee.single(p['d']) and (is_ptr(p['t']) or is_smart(p['t']) or scalar_t(p['t']))):
                child.bind[p['d']] = a
            else:
                i = self.new('decl', child, n=n, node=p, line=nd.get('l', 0), a=(('v', callee.tu, p['d'], child.id, p['n']), a))
                self.link(cur, i); cur = i
        leave = self.new('leave', child, n=n, node=nd, line=nd.get('l', 0))
        self.emit_fn(child, cur, leave)
        return leave
    def reachable(self):
        seen = set([self.entry.id]); st = [self.entry]
        while st:
            i = st.pop()
            for s in i.succ:
                if s.id not in seen:
                    seen.add(s.id); st.append(s)
        return seen

def parent_this(fn):
    return bool(fn.cls) and not fn.raw.get('static')

def scalar_t(t):
    t = strip_t(t)
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char', 'size_t', 'long long', 'short',
                 'unsigned char', 'unsigned long long', 'time_t') or t.startswith('enum ')

WIDTH = {'bool': 1, 'char': 8, 'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
         'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'size_t': 64}

PURE_FUNCS = set(['strlen', 'strcmp', 'strchr', 'strrchr', 'strstr', 'strncmp', 'memcmp', 'memchr', 'strpbrk', 'strspn', 'strcspn', 'oid_oidcmp', 'oid_oidlen'])
