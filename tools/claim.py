import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def claim(id, note, technique=None, level=None):
    p = V + '/tools/claims.json'
    c = json.load(open(p))
    c['not_applicable'].pop(id, None)
    d = {'note': note}
    if technique:
        d['technique'] = technique
    if level:
        d['level'] = level
    c['claimed'][id] = d
    json.dump(c, open(p, 'w'), indent=1)


def finding(**k):
    p = V + '/known-findings.json'
    l = [x for x in json.load(open(p)) if x['id'] != k['id']]
    l.append(k)
    json.dump(l, open(p, 'w'), indent=1)


def done():
    subprocess.run(['python3', V + '/tools/mkprops.py'], check=True)
    subprocess.run(['python3', V + '/tools/mkmanifest.py'], check=True)
