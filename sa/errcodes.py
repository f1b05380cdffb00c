"""values of macros of the public headers, obtained from the preprocessor (never from frozen text)"""
import os, re, subprocess, tempfile
from . import build


def macros(headers, prefix, defs=()):
    src = ''.join('#include <%s>\n' % h for h in headers)
    r = subprocess.run([build.CLANG, '-E', '-dM', '-x', 'c', '-'] + build.INC + list(defs), input=src, cwd=build.REPO,
                       capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[:500])
    names = [m.group(1) for m in re.finditer(r'^#define (%s\w+) ' % prefix, r.stdout, re.M)]
    if not names:
        return {}
    src2 = src + 'enum {' + ','.join('VP_%s_=0' % n for n in names) + '};\n'
    src2 = src + ''.join('VPX %s = (%s) ;\n' % ('__%s' % n, n) for n in names)
    r = subprocess.run([build.CLANG, '-E', '-P', '-x', 'c', '-'] + build.INC + list(defs), input=src2, cwd=build.REPO,
                       capture_output=True, text=True)
    out = {}
    for m in re.finditer(r'^VPX __(\w+) = (.*) ;$', r.stdout, re.M):
        e = m.group(2)
        e = re.sub(r"'(.)'", lambda k: str(ord(k.group(1))), e)
        e = re.sub(r'\((unsigned )?(int|char|long|uint8_t|uint16_t|uint32_t)\)', '', e)
        e = re.sub(r'\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]+\b', r'\1', e)
        if re.fullmatch(r'[0-9a-fA-FxX()+\-*<>|&~ ]+', e):
            try:
                out[m.group(1)] = eval(e)
            except Exception:
                pass
    return out


def read(ctx=None):
    return macros(['noise/protocol.h'], 'NOISE_ERROR_')


def constants(prefix='NOISE_'):
    return macros(['noise/protocol.h', 'internal.h'], prefix)
