"""Compiles /repo's current working tree to LLVM IR, per build configuration, and links it (in Python).

The units and flags are those of the real autotools build (Makefile.am); the IR is emitted at -O0 and only
mem2reg is applied, so every source-level branch, load, store and call is present and nothing is optimised away.
"""
import os, re, subprocess, shutil, tempfile, sys
from concurrent.futures import ThreadPoolExecutor
from . import llir

REPO = os.environ.get('VP_REPO', '/repo')
CLANG = shutil.which('clang-18') or '/usr/bin/clang-18'
OPT = shutil.which('opt-18') or shutil.which('opt') or '/usr/lib/llvm-18/bin/opt'

PROTO = ['cipherstate', 'dhstate', 'errors', 'handshakestate', 'hashstate', 'internal', 'names', 'patterns',
         'randstate', 'signstate', 'symmetricstate', 'util']
COMMON = ['src/protocol/%s.c' % x for x in PROTO]
CRYPTO_COMMON = ['src/crypto/blake2/blake2s.c', 'src/crypto/curve448/curve448.c',
                 'src/crypto/newhope/batcher.c', 'src/crypto/newhope/error_correction.c',
                 'src/crypto/newhope/fips202.c', 'src/crypto/newhope/newhope.c', 'src/crypto/newhope/ntt.c',
                 'src/crypto/newhope/poly.c', 'src/crypto/newhope/precomp.c', 'src/crypto/newhope/reduce.c']
P448 = ['src/crypto/goldilocks/src/p448/arch_x86_64/p448.c']
BK_COMMON = ['src/backend/ref/dh-curve448.c', 'src/backend/ref/dh-newhope.c', 'src/backend/ref/hash-blake2s.c']
BK_REF = ['src/backend/ref/cipher-chachapoly.c', 'src/backend/ref/dh-curve25519.c', 'src/backend/ref/hash-blake2b.c',
          'src/backend/ref/hash-sha256.c', 'src/backend/ref/hash-sha512.c', 'src/backend/ref/sign-ed25519.c']
CR_REF = ['src/crypto/aes/rijndael-alg-fst.c', 'src/crypto/blake2/blake2b.c', 'src/crypto/chacha/chacha.c',
          'src/crypto/donna/poly1305-donna.c', 'src/crypto/ghash/ghash.c',
          'src/crypto/newhope/crypto_stream_chacha20.c', 'src/crypto/sha2/sha256.c', 'src/crypto/sha2/sha512.c']
CR_ED = ['src/crypto/ed25519/ed25519.c']
KEYS = ['src/keys/certificate.c', 'src/keys/loader.c']
PB = ['src/protobufs/protobufs.c']

CONFIGS = {
    'ref': dict(units=COMMON + BK_COMMON + ['src/backend/ref/cipher-aesgcm.c'] + BK_REF + ['src/protocol/rand_os.c'] + KEYS + PB,
                crypto=CRYPTO_COMMON + CR_REF, defs=['-DED25519_CUSTOMHASH', '-DED25519_CUSTOMRANDOM']),
    'openssl': dict(units=COMMON + BK_COMMON + ['src/backend/openssl/cipher-aesgcm.c'] + BK_REF + ['src/protocol/rand_os.c'] + KEYS + PB,
                    crypto=CRYPTO_COMMON + CR_REF,
                    defs=['-DUSE_OPENSSL=1', '-DED25519_CUSTOMHASH', '-DED25519_CUSTOMRANDOM']),
    'sodium': dict(units=COMMON + BK_COMMON + ['src/backend/sodium/cipher-aesgcm.c', 'src/backend/ref/cipher-aesgcm.c',
                                               'src/backend/sodium/cipher-chachapoly.c', 'src/backend/sodium/dh-curve25519.c',
                                               'src/backend/sodium/hash-blake2b.c', 'src/backend/sodium/hash-sha256.c',
                                               'src/backend/sodium/hash-sha512.c', 'src/backend/sodium/sign-ed25519.c',
                                               'src/protocol/rand_sodium.c'] + KEYS + PB,
                   crypto=CRYPTO_COMMON + ['src/crypto/aes/rijndael-alg-fst.c', 'src/crypto/ghash/ghash.c'],
                   defs=['-DUSE_LIBSODIUM=1']),
}
TOOLS = ['tools/keytool/generate.c', 'tools/keytool/keytool.c', 'tools/keytool/show.c', 'tools/keytool/sign.c']

INC = ['-Iinclude', '-Isrc/protocol', '-Isrc', '-Iinclude/noise/keys', '-Isrc/crypto/goldilocks/src/include',
       '-Isrc/crypto/goldilocks/src/p448', '-Isrc/crypto/goldilocks/src/p448/arch_x86_64']


class BuildError(Exception):
    pass


def compile_unit(args):
    repo, src, defs, out, extra = args
    raw = out + '.raw'
    flags = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-S', '-emit-llvm', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
             '-fno-vectorize', '-fno-slp-vectorize'] + INC + defs + extra
    r = subprocess.run([CLANG] + flags + ['-o', raw, src], cwd=repo, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr[:2000]))
    r = subprocess.run([OPT, '-S', '-passes=mem2reg', raw, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr[:2000]))
    os.unlink(raw)
    with open(out) as f:
        return f.read()


class Program:
    """All modules of one configuration, with C linkage resolution."""

    def __init__(self, config):
        self.config = config
        self.modules = []
        self.ext = {}
        self.fieldnames = {}
        self.fieldinfo = {}
        self.gext = {}

    def add(self, mod):
        self.modules.append(mod)
        for f in mod.functions.values():
            f.analyzed = False
            if not f.declared_only and not f.internal:
                self.ext.setdefault(f.name, f)
        for g in mod.globals.values():
            if g.init is not None and not g.internal:
                self.gext.setdefault(g.name, g)
        for k, v in mod.fieldnames.items():
            self.fieldnames.setdefault(k, v)
        for k, v in mod.fieldinfo.items():
            self.fieldinfo.setdefault(k, v)

    def resolve(self, mod, name):
        f = mod.functions.get(name)
        if f is not None and not f.declared_only:
            return f
        return self.ext.get(name)

    def resolve_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and g.init is not None:
            return g
        return self.gext.get(name)

    def functions(self):
        for m in self.modules:
            for f in m.functions.values():
                if not f.declared_only:
                    yield f

    def field(self, struct, off):
        st = re.sub(r'\.\d+$', '', struct)
        if st.startswith('struct.'):
            st = st[7:]
        return self.fieldnames.get(st, {}).get(off)


def load(config, files=None, crypto=False, repo=None, extra_units=()):
    repo = repo or REPO
    c = CONFIGS[config]
    units = list(files) if files else list(dict.fromkeys(c['units'] + (c['crypto'] if crypto else []) + list(extra_units)))
    tmp = tempfile.mkdtemp(prefix='nc-ir-')
    try:
        jobs = []
        for i, u in enumerate(units):
            if not os.path.exists(os.path.join(repo, u)):
                raise BuildError('unit missing from the tree: ' + u)
            jobs.append((repo, u, c['defs'], os.path.join(tmp, '%d.ll' % i), []))
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(compile_unit, jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    p = Program(config)
    for u, t in zip(units, texts):
        p.add(llir.parse_module(t, u))
    p.units = units
    return p
