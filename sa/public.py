"""the public functions: what the public headers declare (from the compiler's syntax tree)"""
import json, subprocess
from . import build


def functions(headers=('noise/protocol.h', 'noise/keys.h', 'noise/protobufs.h')):
    src = ''.join('#include <%s>\n' % h for h in headers)
    r = subprocess.run([build.CLANG, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-x', 'c', '-'] + build.INC, input=src, cwd=build.REPO,
                       capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[:500])
    out, cur = [], ''
    for n in json.loads(r.stdout)['inner']:
        l = n.get('loc', {})
        l = l.get('expansionLoc', l)
        if 'file' in l:
            cur = l['file']
        if n.get('kind') == 'FunctionDecl' and 'include/noise/' in cur and n['name'] not in out:
            out.append(n['name'])
    return out
