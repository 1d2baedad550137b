"""DESIGN.md sections from the contract modules, claims, findings and planted bugs (text above the markers is in tools/design/base.md)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/irvc', V + '/contracts']
base = open(V + '/tools/design/base.md').read()
cl = json.load(open(V + '/tools/claims.json'))
pr = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in pr:
    i = p['id']
    if i not in cl['claimed']:
        continue
    m = importlib.import_module(i.lower())
    out.append('### %s — %s\n' % (i, p['title']))
    out.append('*Specified and proved.* ' + m.EXPLAIN + '\n')
    try:
        gs = m.groups('thorough')
    except Exception:
        gs = []
    fns = {}
    for g in gs:
        for s, _ in g.srcs:
            pass
        fns.setdefault(g.srcs[0][0], []).extend(c.fn for c in g.contracts)
    for s, l in fns.items():
        l = sorted(set(l))
        out.append('Functions under contract, `%s`: %s.\n' % (s, ', '.join('`%s`' % x for x in l) if len(l) < 26 else '%d functions (%s, …)' % (len(l), ', '.join('`%s`' % x for x in l[:6]))))
    if m.ASSUMPTIONS:
        out.append('*Assumed:* ' + '; '.join(m.ASSUMPTIONS) + '.\n')
    if m.TRUSTED:
        out.append('*Trusted:* ' + '; '.join(m.TRUSTED) + '.\n')
    for n in m.natives('quick'):
        out.append('*Monitor (bounded)* `%s`: %s.\n' % (n.srcs[0], n.bound))
    out.append(cl['claimed'][i]['note'] + '\n')
na = ['* **%s** %s — %s' % (p['id'], p['title'], cl['not_applicable'][p['id']]) for p in pr if p['id'] in cl['not_applicable']]
kf = json.load(open(V + '/known-findings.json'))
fx = ['* %s (%s): %s' % (k['property'], k['commit'], k['what'].split(k['commit'])[-1].strip()) for k in kf if k['status'] == 'fixed']
op = ['* %s: %s' % (k['property'], k['what']) for k in kf if k['status'] == 'open']
sd = ['| planted bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
res = json.load(open(V + '/tools/design/seeds.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    sd.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'], res.get(n, 'failed obligation and monitor input')))
t = base
for k, v in (('PROPS', '\n'.join(out)), ('NA', '\n'.join(na)), ('FIXED', '\n'.join(fx)), ('OPEN', '\n'.join(op)), ('SEEDS', '\n'.join(sd))):
    t = t.replace('@@' + k + '@@', v)
open(V + '/DESIGN.md', 'w').write(t)
