"""Confirms planted bugs and runs checks on them:  python3 tools/plant.py [-c C01,C02] [-n] id...

For each seeded/<id>: applies patch.diff to /repo, builds, runs the stable tests and the demo, runs the check of the
property (and those given with -c), then restores /repo.  -n skips build, tests and demo and only runs the checks.
"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    out = tempfile.mktemp(suffix='.json')
    sh('bash /opt/vp/test.sh ' + out, cwd=REPO)
    base = json.load(open('/opt/vp/BASELINE.json'))
    d = json.load(open(out))
    os.unlink(out)
    return base, d


def failed(base, d):
    want = base['stable']
    got = d.get('passed')
    got = set(got) if not isinstance(got, dict) else {k for k, v in got.items() if v}
    want = set(want) if not isinstance(want, dict) else set(want)
    return sorted(want - got)


def main():
    a = sys.argv[1:]
    extra, only, ids = [], False, []
    while a:
        x = a.pop(0)
        if x == '-c':
            extra = a.pop(0).split(',')
        elif x == '-n':
            only = True
        else:
            ids.append(x)
    if not ids:
        ids = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    assert sh('git -C %s status --porcelain' % REPO).stdout.strip() == ''
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        prop = json.load(open(d + '/meta.json'))['property']
        line = i + ' ' + prop
        try:
            r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
            if r.returncode:
                print(line, 'PATCH', r.stdout)
                continue
            if not only:
                r = sh('bash /opt/vp/build.sh', cwd=REPO)
                line += ' build=%d' % r.returncode
                if r.returncode:
                    print(r.stdout[-800:])
                line += ' testsfailed=%d' % len(failed(*tests()))
                r = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
                line += ' demo=%d' % r.returncode
                if '-v' in sys.argv:
                    print(r.stdout)
            for c in [prop] + [x for x in extra if x != prop]:
                if not os.path.exists(HERE + '/sa/rules/%s.py' % c.lower()):
                    continue
                r = sh('python3 -m sa.run %s quick' % c, cwd=HERE)
                why = [l for l in r.stdout.splitlines() if '[' in l and not l.startswith(' ')][:1]
                line += ' %s=%d' % (c, r.returncode) + (' {%s}' % why[0][:150] if why and r.returncode else '')
        finally:
            sh('git -C %s checkout -- .' % REPO)
            if not only:
                sh('bash /opt/vp/build.sh', cwd=REPO)
        if not only:
            r = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
            line += ' clean-demo=%d' % r.returncode
            if r.returncode:
                print(r.stdout[-500:])
        print(line, flush=True)


main()
