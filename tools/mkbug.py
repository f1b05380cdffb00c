"""Creates seeded/<id> from a description file: a Python file defining BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, config)]"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds for this case; nonzero: it is broken.  Run with cwd /repo after the build.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
b=_build/%s/src
gcc -w %s -I include -I src/protocol -I src -o "$t/demo" "$d/demo.c" $b/keys/libnoisekeys.a $b/protobufs/libnoiseprotobufs.a $b/protocol/libnoiseprotocol.a %s || exit 2
cd "$t" && timeout 60 ./demo
'''
LIBS = {'ref': '', 'openssl': '-lcrypto -lpthread', 'sodium': '-lsodium -lpthread'}
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
for b in ns['BUGS']:
    if want and b['id'] not in want:
        continue
    d = os.path.join(HERE, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b['edits']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    c = b.get('config', 'ref')
    open(d + '/demo.sh', 'w').write(SH % (c, b.get('cflags', ''), b.get('libs', LIBS[c])))
    open(d + '/demo.c', 'w').write(b['demo'])
    for n, t in b.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'])
