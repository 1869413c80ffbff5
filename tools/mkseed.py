"""mkseed.py SPEC.py ...: turn bug specs (SEEDS list of dicts: id, property, edits[(file, old, new)], needs, breaks, demo)
into seeded/<id>/ directories (patch against /repo HEAD)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)['SEEDS']:
        w = tempfile.mkdtemp(prefix='mk.', dir='/tmp')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
            for f, old, new in s['edits']:
                p = w + '/r/' + f
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            d = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
        finally:
            shutil.rmtree(w)
        out = os.path.join(V, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(d)
        open(out + '/demo.py', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        print(s['id'], len(d.splitlines()))
