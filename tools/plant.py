"""Helper to record a planted bug: plant(id, prop, needs, breaks, edits, demo_cpp, sources)."""
import json
import os
import shutil
import subprocess
import tempfile

DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++-14 -nostdinc++ -cxx-isystem /usr/include/c++/12 -cxx-isystem /usr/include/x86_64-linux-gnu/c++/12 -std=c++20 \\
  %(flags)s -I. -I_build/gen -I/usr/include/eigen3 "$d/demo.cpp" %(src)s -o "$out/demo" %(libs)s || exit 0
timeout 200 "$out/demo"
'''


def plant(id, prop, needs, breaks, edits, demo, sources, flags='', libs='-lfmt -lglog -lprotobuf -luuid -pthread'):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    c = tempfile.mkdtemp(prefix='plant_')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', c + '/r'], check=True)
        for f, old, new in edits:
            p = c + '/r/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', c + '/r', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(c)
    if 'resim/assert/assert.cc' not in sources:
        sources = sources + ['resim/assert/assert.cc']
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % dict(flags=flags, src=' '.join(sources), libs=libs))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)


TF = ['resim/transforms/so3.cc', 'resim/transforms/se3.cc', 'resim/transforms/cross_matrix.cc',
      'resim/transforms/liegroup_exp_diff.cc', 'resim/utils/uuid.cc']
