"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []
NA = []
def prop(id, title, statement, over, q, why, files, mech, note, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note))
def na(id, title, statement, over, q, why, files, mech, reason):
    prop(id, title, statement, over, q, why, files, mech, None); NA.append((id, reason))

exec(open(os.path.join(V, 'tools', 'properties.py')).read())

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks = []
    nas = dict(NA)
    for p in P:
        if p['id'] in nas: continue
        m = importlib.import_module('rules.' + p['id'])
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                       'technique': m.TECHNIQUE, 'level': 'other', 'level_note': p['note']})
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
           'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
           'notes': 'No hooks are needed: every check reads the sources in /repo. check.py rebuilds its parser (tool/mpdump.cpp) when needed and re-parses every changed unit.'}
    with open(V + '/MANIFEST.json', 'w') as f: json.dump(man, f, indent=1); f.write('\n')
    import glob
    print(len(checks), 'checks', len(NA), 'not applicable')
    for r in sorted(glob.glob(V + '/rules/C*.py')):
        i = os.path.basename(r)[:-3]
        if i not in [c['property'] for c in checks]: print('rule without property:', i)
if __name__ == '__main__': main()
