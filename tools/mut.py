"""Quick sensitivity probe: python3 tools/mut.py FILE.py   with MUTS=[(checks, file, old, new)] ; runs the checks on each edit of a
copy of /repo.  JOBS=n runs n at a time, ONLY=i,j picks some, MUT_SRC=dir starts from another tree."""
import os, subprocess, sys, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
ms = runpy.run_path(sys.argv[1])['MUTS']
only = {int(x) for x in os.environ['ONLY'].split(',')} if os.environ.get('ONLY') else None


def one(a):
    i, (checks, f, old, new) = a
    if only is not None and i not in only:
        return
    rw = tempfile.mkdtemp(prefix='rw.')
    try:
        subprocess.run('test -n "$MUT_SRC" && cp -a $MUT_SRC/. %s || git -C /repo archive HEAD | tar -x -C %s' % (rw, rw), shell=True, check=True)
        p = rw + '/' + f
        s = open(p).read()
        if s.count(old) < 1:
            print(i, 'NOT FOUND', old, flush=True)
            return
        open(p, 'w').write(s.replace(old, new, 1))
        for c in checks.split(','):
            r = subprocess.run(['python3', '-m', 'sa.run', c, 'quick'], cwd='/verif', env=dict(os.environ, VP_REPO=rw, SA_EVID=rw), capture_output=True, text=True)
            first = [l for l in r.stdout.splitlines() if '[' in l or 'BROKEN' in l][:1]
            print(i, c, {0: 'QUIET', 1: 'caught', 2: 'BROKEN'}.get(r.returncode), '|', new[:60].replace('\n', ' '), '|', (first or [''])[0][:200], flush=True)
    finally:
        subprocess.run(['rm', '-rf', rw])


with ThreadPoolExecutor(int(os.environ.get('JOBS', '1'))) as ex:
    list(ex.map(one, enumerate(ms)))
