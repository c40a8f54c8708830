"""Writes DESIGN.md: head + generated parts (properties, findings, limits, planted bugs)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
HOW = json.load(open(ROOT + '/tools/design_how.json'))


def src(i):
    return open(ROOT + '/lib/%s.py' % i.lower()).read()


def rule(i):
    s = src(i)
    m = re.search(r"(?:^RULE|^    r\.rule) = \((.*?)\)\n(?=\S|\n|    r)", s, re.S | re.M)
    return ' '.join(''.join(eval('(' + m.group(1) + ')')).split()) if m else ''


def families(i):
    out = []
    for m in re.finditer(r"r\.cases\('(\w+)', ([^,]+(?:\([^)]*\))?[^,]*), \w+(?:, thorough=([^,)]+(?:\([^)]*\))?[^,)]*))?", src(i)):
        out.append('%s %s/%s' % (m.group(1), m.group(2).strip(), (m.group(3) or m.group(2)).strip()))
    return ', '.join(out)


t = []
for x in P:
    i = x['id']
    h = HOW.get(i, {})
    t.append('### %s %s\n' % (i, x['title']))
    t.append('*Monitored and oracle.* %s\n' % (rule(i)))
    if h.get('how'):
        t.append('*How.* %s\n' % h['how'])
    t.append('*Beyond the tests.* %s\n' % x['why_tests_cant'])
    t.append('*Bounds.* quick 4-15 s, thorough 1-8 min (8 cores); cases quick/thorough: %s. %s\n' % (families(i), h.get('bounds', '')))
    t.append('*Anchors.* %s\n' % ', '.join(f.replace('src/oidcrp/', '') for f in x['anchors']['files']))
k = json.load(open(ROOT + '/known_findings.json'))
f = ['Recorded, not repaired:\n']
fl = k['findings']
for e in (fl if isinstance(fl, list) else [dict(v, key=kk) for kk, v in fl.items()]):
    f.append('* %s `%s`: %s' % (e.get('property'), e.get('key'), e.get('what')))
f.append('\nRepaired (one `fix:` commit each, %d of them): see the `fixed` list of `known_findings.json`; by property:\n' % len(k['fixed']))
c = {}
for e in k['fixed']:
    p = re.search(r"C\d\d", e if isinstance(e, str) else e['property']).group(0)
    c[p] = c.get(p, 0) + 1
f.append(', '.join('%s %d' % (a, b) for a, b in sorted(c.items())) + '.')
caught = {}
try:
    caught = json.load(open(ROOT + '/tools/caught.json'))
except FileNotFoundError:
    pass
s = ['| bug | property | caught by | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    n = d.split('/')[-2]
    m = json.load(open(d))
    s.append('| %s | %s | %s | %s |' % (n, m['property'], caught.get(n, '?'), m['needs'].replace('|', '/')))
out = open(ROOT + '/tools/design_head.md').read()
for key, val in (('TABLE', '\n'.join(t)), ('FINDINGS', '\n'.join(f)),
                 ('LIMITS', open(ROOT + '/tools/design_limits.md').read()), ('SEEDED', '\n'.join(s))):
    out = re.sub(r'(?m)^%s$' % key, lambda _: val, out, count=1)
open(ROOT + '/DESIGN.md', 'w').write(out)
