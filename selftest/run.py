"""Self-test of the rules: apply each recorded mutation to a scratch copy of the sources and run the rule on it.
   usage: run.py [ID ...]     mutants.jsonl lines: {"p": id, "f": file, "a": old, "b": new, "want": 1|0, "n": nth occurrence}"""
import sys, os, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MP_REPO', '/repo')
def one(m):
    d = tempfile.mkdtemp(prefix='mpmut.')
    try:
        for s in ('src', 'include', 'xml', 'doc', 'etc'):
            if os.path.isdir(os.path.join(REPO, s)):
                shutil.copytree(os.path.join(REPO, s), os.path.join(d, s), symlinks=True)
        eds = m.get('eds') or [m]
        for e in eds:
            p = os.path.join(d, e['f'])
            t = open(p).read()
            if e['a'] not in t: return (m, 'NOMATCH', '')
            parts = t.split(e['a']); n = e.get('n', 0)
            if n == 'all': t = e['b'].join(parts)
            else: t = e['a'].join(parts[:n + 1]) + e['b'] + e['a'].join(parts[n + 1:])
            open(p, 'w').write(t)
        r = subprocess.run([sys.executable, 'check.py', m['p']], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, MP_REPO=d, MP_EVIDENCE=os.path.join(d, 'ev')))
        return (m, r.returncode, r.stdout.replace(d, '') + r.stderr[-600:])
    finally:
        shutil.rmtree(d)
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    ms = [json.loads(l) for l in open(os.environ.get('MP_MUTANTS') or os.path.join(V, 'selftest', 'mutants.jsonl')) if l.strip() and not l.startswith('#')]
    if ids: ms = [m for m in ms if m['p'] in ids]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("MP_J", "6"))) as ex:
        for m, rc, out in ex.map(one, ms):
            ok = rc == m.get('want', 1)
            bad += not ok
            e = (m.get('eds') or [m])[0]
            print('%s %s %s %s -> %s' % ('ok  ' if ok else 'BAD ', m['p'], e['f'], (m.get('d') or e['a'][:50]).strip().replace('\n', ' '), rc))
            if not ok or '-v' in sys.argv: print('      ' + out.strip().replace('\n', '\n      ')[:1500])
    print('%d mutants, %d unexpected' % (len(ms), bad))
    return 1 if bad else 0
if __name__ == '__main__': sys.exit(main())
