"""mutate.py CHECK MUTANTS.py: run a check against scratch copies of /repo with one textual mutation each.
MUTANTS.py defines M = [(file, old, new), ...]; prints killed / SURVIVED per mutant."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk, spec = sys.argv[1:3]
extra = sys.argv[3:]
for n, (f, old, new) in enumerate(runpy.run_path(spec)['M']):
    w = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree('/repo/rdtools', w + '/rdtools', ignore=shutil.ignore_patterns('test', '__pycache__'))
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) >= 1, ('not found', f, old)
        if t.count(old) > 1:
            print('   (ambiguous, first replaced)')
        open(p, 'w').write(t.replace(old, new, 1))
        r = subprocess.run([os.path.join(V, 'check'), chk] + extra, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        last = [x for x in r.stdout.splitlines() if x.startswith(chk)]
        print('%d %s  %r -> %r  %s' % (n, {1: 'killed', 0: 'SURVIVED'}.get(r.returncode, 'ERROR %d' % r.returncode),
                                     old.strip()[:70], new.strip()[:70], last[-1][-60:] if last else r.stderr[-300:]))
        if r.returncode == 2:
            print(r.stdout[-1500:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(w)
