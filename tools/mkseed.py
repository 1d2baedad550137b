"""mk(id, property, needs, breaks, edits, files): writes seeded/<id>; edits = [(file, old, new)] against /repo HEAD."""
import json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, needs, breaks, edits, files):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = ''
    by = {}
    for f, a, b in edits:
        by.setdefault(f, []).append((a, b))
    with tempfile.TemporaryDirectory() as t:
        for f, l in by.items():
            s = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
            o = s
            for a, b in l:
                assert s.count(a) == 1, (id, f, s.count(a), a)
                s = s.replace(a, b)
            for k, x in (('a', o), ('b', s)):
                p = os.path.join(t, k, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(x)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True).stdout
            diff += r
    diff = diff.replace('a/a/', 'a/').replace('b/b/', 'b/')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    for n, x in files.items():
        open(os.path.join(d, n), 'w').write(x)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')], check=True)


def cdemo(src, extra=''):
    """demo.sh compiling demo.c with runtime sources of /repo"""
    return '''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
set -e
gcc -g -w -I/repo -I/repo/include "$D/demo.c" %s -lm -o "$T/demo" %s || exit 9
cd "$T"; timeout 120 ./demo
''' % (src, extra)
