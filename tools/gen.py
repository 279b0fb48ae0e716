"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py (and check them)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'sa'), os.path.join(V, 'sa', 'rules')]
import props, registry
have = {r.id: r for r in registry.rules()}
ids = [p['id'] for p in props.PROPS]
assert len(ids) == len(set(ids))
missing = [i for i in have if i not in ids]
assert not missing, missing
lines, checks, na = [], [], []
for p in props.PROPS:
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['obs']}}, ensure_ascii=False))
    if p.get('na'):
        assert p['id'] not in have, p['id']
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        assert p['id'] in have, p['id']
        c = {'property': p['id'], 'quick_cmd': 'python3 sa/check.py %s' % p['id'], 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % p['id'],
             'technique': p.get('tech') or props.TECH, 'level': 'other', 'level_note': p['note']}
        checks.append(c)
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the MIR of the unmodified crates', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': props.NOTES}
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


def fill(text, mark, body):
    a, b = '<!-- %s -->\n' % mark, '<!-- /%s -->' % mark
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body.strip() + '\n\n' + text[j:]


def caught(i):
    f = os.path.join(V, 'tools', 'caught.json')
    return ', '.join(json.load(open(f)).get(i, ['?'])) if os.path.isfile(f) else '?'


D = os.path.join(V, 'DESIGN.md')
t = open(D).read()
rows = []
for p in props.PROPS:
    if not p.get('na'):
        r = have[p['id']]
        rows.append('* **%s — %s.** %s. *Floors:* %s.' % (p['id'], p['title'], ' '.join(str(r.rule).split()).rstrip('.'), ', '.join('%s ≥ %d' % kv for kv in r.floors.items())))
t = fill(t, 'rules', '\n'.join(rows))
t = fill(t, 'na', '\n'.join('* **%s — %s.** %s' % (p['id'], p['title'], p['na']) for p in props.PROPS if p.get('na')) or '(none)')
sd = os.path.join(V, 'seeded')
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(sd)):
    d = json.load(open(os.path.join(sd, i, 'meta.json')))
    rows.append('| %s | %s | %s; %s | %s |' % (i, d['property'], d['needs'], d['what_it_breaks'], caught(i)))
t = fill(t, 'planted', '\n'.join(rows))
open(D, 'w').write(t)
print(len(checks), 'checks', len(na), 'not applicable')
