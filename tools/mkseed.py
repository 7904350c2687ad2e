#!/usr/bin/env python3
"""Write seeded/<id>/ from a specification and confirm it in a scratch copy of /repo.

usage: mkseed.py SPEC.py [id ...]     SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits, src, demo[, kit])}
"""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'checks'))
import table
DEMO = r'''#!/bin/bash
# run in the repository; exit 0: the property holds in this example
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
python3 "$here/shim/gen.py" "$repo" "$out/gen" >"$out/log" 2>&1 || { cat "$out/log"; exit 3; }
inc="-I$here -I$out/gen/include -I$here/shim/include"
for d in hardware_interface joint_limits transmission_interface controller_interface controller_manager; do inc="$inc -I$repo/$d/include"; done
pids=""
i=0
for f in "$here/demo.cpp" @SRC@; do
  i=$((i + 1))
  g++ -std=c++20 -O0 -w $inc $(pkg-config --cflags urdfdom tinyxml2 eigen3) -c "$f" -o "$out/$i.o" &
  pids="$pids $!"
done
for p in $pids; do wait $p; done
g++ "$out"/*.o @LINK@ -Wl,--allow-multiple-definition $(pkg-config --libs urdfdom tinyxml2) -lfmt -lpthread -o "$out/demo"
cd "$out"
SHIM_LOG=0 timeout 120 ./demo
'''
PYDEMO = r'''#!/bin/bash
# run in the repository; exit 0: the property holds in this example
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec timeout 120 python3 "$here/demo.py" "$PWD"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    ns = {}
    spec = Path(sys.argv[1])
    exec(spec.read_text(), {'T': table}, ns)
    want = sys.argv[2:] or list(ns['SEEDS'])
    for sid in want:
        s = ns['SEEDS'][sid]
        d = V / 'seeded' / sid
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        work = Path(tempfile.mkdtemp(prefix='seed_'))
        subprocess.check_call(['cp', '-a', '/repo', str(work / 'repo')])
        r = work / 'repo'
        for f, old, new in s['edits']:
            p = r / f
            t = p.read_text()
            if t.count(old) != 1:
                sys.exit(f'{sid}: {f}: text found {t.count(old)} times')
            p.write_text(t.replace(old, new))
        diff = sh(['git', '-C', str(r), 'diff']).stdout
        (d / 'patch.diff').write_text(diff)
        (d / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        if 'py' in s:
            (d / 'demo.py').write_text(s['py'])
            (d / 'demo.sh').write_text(PYDEMO)
            for k in s.get('kit', []):
                shutil.copy(V / 'checks' / k, d / k)
        else:
            (d / 'demo.cpp').write_text(s['demo'])
            shutil.copytree(V / 'shim', d / 'shim', ignore=shutil.ignore_patterns('__pycache__'))
            for k in s.get('kit', []):
                src = V / ('lib' if k == 'pbt.hpp' else 'checks') / k
                shutil.copy(src, d / k)
            text = DEMO.replace('@SRC@', ' '.join('"$repo/%s"' % x for x in s['src'])).replace('@LINK@', s.get('link', ''))
            (d / 'demo.sh').write_text(text)
        res = []
        for root in (Path('/repo'), r):
            x = sh(['bash', str(d / 'demo.sh')], cwd=root, timeout=300)
            res.append((x.returncode, (x.stdout + x.stderr)[-600:]))
        good = res[0][0] == 0 and res[1][0] != 0
        print(sid, 'unchanged', res[0][0], 'changed', res[1][0], 'OK' if good else 'BAD')
        if not good or res[1][0] not in (1,):
            print('  unchanged:', res[0][1], '\n  changed:', res[1][1])
        shutil.rmtree(work)


main()
