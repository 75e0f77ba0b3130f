"""Parse /repo's current sources with mpdump and load the result.

The dump is cached under /verif/build/cache, keyed by a hash of everything the
parse depends on (all sources and headers of /repo, the stub headers and the
dumper itself), so a change to any source file is always re-analysed.
"""
import os, sys, json, hashlib, subprocess, glob, concurrent.futures, shutil, pickle, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class AnalysisError(Exception):
    pass

def pkg_cflags():
    try:
        out = subprocess.run(['pkg-config', '--cflags', 'yaz', 'libxml-2.0', 'libxslt'],
                             capture_output=True, text=True, check=True).stdout.split()
    except Exception:
        out = ['-I/usr/include/libxml2']
    return out

def flags():
    return ['-std=c++17', '-w', '-ferror-limit=0', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
            '-I%s/stubs' % VERIF, '-I%s/stubs/cfg' % VERIF,
            '-I%s/include' % REPO, '-I%s/src' % REPO] + pkg_cflags()

def sources():
    s = sorted(glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/*.cc'))
    return [f for f in s if not os.path.basename(f).startswith(('test_', 'ex_', 'check_'))]

def base_hash():
    """everything a translation unit may depend on besides its own source file"""
    h = hashlib.sha256()
    fs = []
    for d in ('/src', '/include'):
        for root, dirs, files in os.walk(REPO + d):
            if '/.libs' in root or '/.deps' in root:
                continue
            for f in files:
                if f.endswith(('.hpp', '.h', '.hh', '.inc', '.ipp')):
                    fs.append(os.path.join(root, f))
    fs2 = []
    for root, dirs, files in os.walk(VERIF + '/stubs'):
        for f in files:
            fs2.append(os.path.join(root, f))
    fs2.append(VERIF + '/tool/mpdump.cpp')
    for f in sorted(fs) + sorted(fs2):
        h.update((f[len(REPO):] if f.startswith(REPO) else f).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h

def ensure_tool():
    r = subprocess.run(['bash', VERIF + '/setup.sh'], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(BUILD + '/mpdump'):
        raise AnalysisError('cannot build mpdump: ' + r.stderr[-2000:])

def dump_one(args):
    src, out = args
    r = subprocess.run([BUILD + '/mpdump', out, REPO + '/', '/yaz/', src, '--'] + flags(),
                       capture_output=True, text=True, cwd=REPO + '/src')
    return src, r.returncode, r.stderr

def load_raw():
    """list of per-TU dictionaries"""
    ensure_tool()
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    base = base_hash()
    jobs = []
    for src in sources():
        h = base.copy()
        h.update(os.path.basename(src).encode() + b'\0')
        with open(src, 'rb') as f:
            txt = f.read()
        # a unit that includes another source file depends on it too
        for m in re.findall(rb'#\s*include\s*"([^"]+\.(?:c|cc|cpp))"', txt):
            p = os.path.join(REPO, 'src', m.decode())
            if os.path.exists(p): h.update(open(p, 'rb').read())
        h.update(txt)
        jobs.append((src, os.path.join(cdir, h.hexdigest()[:32] + '.pickle')))
    if not jobs:
        raise AnalysisError('no sources found in %s/src' % REPO)
    tmp = os.path.join(cdir, 'tmp.%d' % os.getpid())
    os.makedirs(tmp)
    try:
        miss = [(s, os.path.join(tmp, os.path.basename(s) + '.json')) for s, pk in jobs if not os.path.exists(pk)]
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for src, rc, err in ex.map(dump_one, miss):
                if rc != 0:
                    raise AnalysisError('%s does not parse:\n%s' % (src, err[-3000:]))
        out = dict(miss)
        res = []
        for s, pk in jobs:
            if s in out:
                with open(out[s]) as f:
                    d = json.loads(f.read().replace(REPO + '/', '/@R/'))
                t = pk + '.%d' % os.getpid()
                with open(t, 'wb') as f:
                    pickle.dump(d, f, protocol=4)
                os.rename(t, pk)
            else:
                with open(pk, 'rb') as f:
                    d = pickle.load(f)
                try: os.utime(pk)
                except OSError: pass
            res.append(d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    old = glob.glob(cdir + '/*.pickle')
    if len(old) > 400:
        def age(p):
            try: return os.path.getmtime(p)
            except OSError: return 0
        for o in sorted(old, key=age)[:-300]:
            try:
                os.unlink(o)
            except OSError:
                pass
    return res

if __name__ == '__main__':
    t = time.time()
    r = load_raw()
    print(len(r), 'TUs', sum(len(x['fns']) for x in r), 'functions', time.time() - t)
    for x in r:
        nb = [f['name'] for f in x['fns'] if f.get('nocfg')]
        if nb or x['errors']:
            print(x['tu'], nb, x['errors'])
