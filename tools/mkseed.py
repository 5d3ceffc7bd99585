#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py - writes seeded/<id>/ from a spec: dict(id, property, needs, breaks, edits=[(file, old, new[, nth])],
pkg, test) where test is the source of an in-package (or external) test file with TestDemo."""
import sys, os, json, subprocess, runpy, shutil, tempfile
for spec in runpy.run_path(sys.argv[1])['SEEDS']:
    d = '/verif/seeded/' + spec['id']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    for e in spec['edits']:
        f, old, new = e[:3]
        src = open('/repo/' + f).read()
        p = os.path.join(w, 'b', f)
        if os.path.exists(p): src = open(p).read()
        n = src.count(old)
        if n != 1 and len(e) < 4: sys.exit(f"{spec['id']}: {f}: {n} matches of {old!r}")
        if len(e) == 4:
            parts = src.split(old)
            k = e[3]
            src = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
        else: src = src.replace(old, new)
        for side, text in (('b', src),):
            p = os.path.join(w, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(text)
        p = os.path.join(w, 'a', f); os.makedirs(os.path.dirname(p), exist_ok=True); shutil.copy('/repo/' + f, p)
    out = subprocess.run(['git', 'diff', '--no-index', 'a', 'b'], cwd=w, capture_output=True, text=True).stdout
    out = out.replace('a/a/', 'a/').replace('b/b/', 'b/')
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo_test.go.txt', 'w').write((spec['test'] if spec['test'].lstrip().startswith('package') else 'package ' + spec.get('pkgname', spec['pkg'].split('/')[-1]) + '\n' + spec['test']).lstrip())
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{spec['pkg']}/zz_demo_test.go\\": \\"$T/demo_test.go\\"}}}}" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestZZDemo$' ./{spec['pkg']}
''')
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    print(spec['id'])
