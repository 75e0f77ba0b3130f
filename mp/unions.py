"""Tagged unions of the protocol library: struct { int which; union { T1 *m1; ... } u; } and the constants that
   belong to the members, read from the installed headers (never from /repo)."""
import re, os
from .load import AnalysisError

_files = {}
def lines(path):
    if path not in _files:
        with open(path, errors='replace') as f: _files[path] = f.read().split('\n')
    return _files[path]

def strip_c(s):
    return re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', ' ', s, flags=re.S))

_u = {}
def union_of(t):
    """{member: constant} for the type of a union member, or None"""
    m = re.search(r'\(unnamed union at (/\S+?):(\d+):\d+\)', t)
    if not m: return None
    k = (m.group(1), int(m.group(2)))
    if k not in _u: _u[k] = read_union(*k)
    return _u[k]

def constants(path):
    out = []
    for n, l in enumerate(lines(path)):
        m = re.match(r'\s*#\s*define\s+(\w+)\s+\(?(-?\d+)\)?\s*(/\*.*)?$', l)
        if m: out.append((n + 1, m.group(1), int(m.group(2))))
    return out

def plain_type(t, path):
    t = ' '.join(t.replace('*', ' * ').split())
    m = re.match(r'(\w+)( \*)*$', t)
    for _ in range(4):
        if not m: break
        for l in lines(path):
            d = re.match(r'typedef\s+(\w+)\s+%s\s*;' % m.group(1), l)
            if d: t = d.group(1) + t[len(m.group(1)):]; break
        else: break
        m = re.match(r'(\w+)( \*)*$', t)
    return t

def read_union(path, line):
    L = lines(path)
    body = []; depth = 0; end = None
    for n in range(line - 1, len(L)):
        depth += L[n].count('{') - L[n].count('}')
        body.append(L[n])
        if depth == 0 and '}' in L[n]: end = n + 1; break
    if end is None: return None
    head = line - 1
    while head > 0 and not re.match(r'(typedef\s+)?struct\b', L[head]): head -= 1
    start = head
    while start > 0 and (L[start - 1].lstrip().startswith('#') or not L[start - 1].strip()): start -= 1
    text = strip_c('\n'.join(l for l in body if not l.lstrip().startswith('#')))
    text = text[text.index('{') + 1:text.rindex('}')]
    while '{' in text: text = re.sub(r'\{[^{}]*\}', ' ', text)
    fields = re.findall(r'([\w\s]+?[\s*]+)(\w+)\s*;', text)
    members = [m for t, m in fields]
    types = {m: plain_type(t, path) for t, m in fields}
    cs = [(n, name, v) for n, name, v in constants(path) if start < n <= end]
    out = {}
    for m in members:
        # the constant that ends in the member name
        c = [v for n, name, v in cs if name.lower().endswith('_' + m.lower())]
        if len(c) == 1: out[m] = c[0]
    names = {v: name for n, name, v in cs}
    if len(out) < len(members) and len(cs) == len(members):
        out = {m: v for m, (n, name, v) in zip(members, cs)}      # same order, other names
    if not out:
        # constants away from the struct, in the order of the members
        pre = re.sub(r'^\w*struct\s+', '', L[head]).strip(' {').upper()
        cs = [c for c in constants(path) if pre and c[1].startswith(pre + '_')]
        if len(cs) == len(members): out = {m: v for m, (n, name, v) in zip(members, cs)}
    return {'types': types, 'same': len(set(types.values())) == 1 and len(fields) == len(re.findall(';', text)), 'members': members, 'const': out, 'names': names, 'at': '%s:%d' % (path, line)}
