"""C19: identifiers, names and error strings map one to one."""
from ..absint import *
from .. import errcodes
from ..libmodels import gf, ef, finfo
from ..run import Result, engine_result, V, Broken

RULES = [
    'id-to-name: for every category (each documented one, "any" and every other value) and every identifier, noise_id_to_name returns exactly the Noise name of that identifier, and null precisely for the identifiers that have none',
    'name-to-id: for every category, every length and every content of the bytes, noise_name_to_id returns an identifier only for its complete name, and zero precisely for the names that are unknown in the category',
    'identifiers: the macros of the algorithms, patterns and prefixes are the known ones, have distinct values and lie in their category',
    'protocol-parse: a protocol name is accepted exactly when it consists of five fields, separated by single underscores, each of which is a name of its category, the third optionally two names joined by the first plus sign; the identifiers of these names, and nothing else, are stored, and on refusal the result is all zero',
    'protocol-format: a set of identifiers is formatted, exactly when all of them have a name, the reserved ones are zero and the buffer has room for the terminator, to the text that protocol-parse takes apart into the same fields; every refusal leaves an empty string',
    'error-strings: every error code has exactly one text of its own that describes it, other codes have none, and the text is always terminated',
]
EXPLANATION = 'every path of the name functions for symbolic identifiers, symbolic name bytes of every relevant length, every arrangement of delimiters up to seven fields, and every error code'
MIN = {'names': 52, 'lookup_runs': 100, 'parse_shapes': 100, 'format_shapes': 8, 'error_codes': 18, 'obligations': 2000}
ASSUMPTIONS = ['the names looked up in a protocol name contain no underscore or plus sign other than in "+hfs"']

CATS = ['CIPHER', 'HASH', 'DH', 'PATTERN', 'PREFIX', 'SIGN']
FIXED = {'CIPHER_CHACHAPOLY': 'ChaChaPoly', 'CIPHER_AESGCM': 'AESGCM', 'HASH_BLAKE2s': 'BLAKE2s', 'HASH_BLAKE2b': 'BLAKE2b', 'HASH_SHA256': 'SHA256',
         'HASH_SHA512': 'SHA512', 'DH_CURVE25519': '25519', 'DH_CURVE448': '448', 'DH_NEWHOPE': 'NewHope', 'PREFIX_STANDARD': 'Noise',
         'PREFIX_PSK': 'NoisePSK', 'SIGN_ED25519': 'Ed25519'}
ERRORS = {'NONE': 'no error', 'NO_MEMORY': 'memory', 'UNKNOWN_ID': 'identifier', 'UNKNOWN_NAME': 'name', 'MAC_FAILURE': 'mac', 'NOT_APPLICABLE': 'applicable',
          'SYSTEM': 'system', 'REMOTE_KEY_REQUIRED': 'remote', 'LOCAL_KEY_REQUIRED': 'local', 'PSK_REQUIRED': 'shared', 'INVALID_LENGTH': 'length',
          'INVALID_PARAM': 'param', 'INVALID_STATE': 'state', 'INVALID_NONCE': 'nonce', 'INVALID_PRIVATE_KEY': 'private', 'INVALID_PUBLIC_KEY': 'public',
          'INVALID_FORMAT': 'format', 'INVALID_SIGNATURE': 'signature'}
PID = 'NoiseProtocolId'


def pattern_name(m):
    parts = m.split('_')
    base, mods = parts[0], [x.lower() for x in parts[1:]]
    if any(x not in ('fallback', 'noidh', 'hfs') for x in mods):
        return None
    return base + '+'.join(mods)


def known():
    """{id: name} from the public macros, and the problems found with these"""
    c, ids, bad = errcodes.constants('NOISE_'), {}, []
    for m, v in sorted(c.items()):
        m = m[len('NOISE_'):]
        cat = m.split('_')[0]
        if cat not in CATS or m.endswith('_CATEGORY') or m.endswith('_NONE'):
            continue
        name = pattern_name(m[8:]) if cat == 'PATTERN' else FIXED.get(m)
        if name is None:
            bad.append('NOISE_%s is not an identifier of the Noise specification' % m)
            continue
        if v in ids:
            bad.append('NOISE_%s has the value of another identifier' % m)
        if v & ~0xff != c['NOISE_%s_CATEGORY' % cat] or not v & 0xff:
            bad.append('NOISE_%s lies outside its category' % m)
        ids[v] = name
    for m in FIXED:
        if 'NOISE_' + m not in c:
            bad.append('NOISE_%s is missing' % m)
    return ids, bad, c


def region(eng, st, name, cells, const=True):
    """a block of memory with the given bytes: ints or symbols"""
    eng.fresh_ctr += 1
    y = eng.newsym(None, '@%s%d' % (name, eng.fresh_ctr), 'ptr', 64, 1, U64, origin=('spec',))
    y.rkind = 'global'

    class G:
        image = bytes(x if isinstance(x, int) else 1 for x in cells)
        size = len(cells)
        relocs = {}
    G.const, G.name = const, '@' + name
    y.extra = G
    y.size = K(len(cells))
    y.nonnull = True
    r = Region()
    for i, v in enumerate(cells):
        r.cells[(i, 1)] = K(v) if isinstance(v, int) else v
    st.mem[y.id] = r
    return (0, ((y.id, 1),))


def byte(eng, name):
    return eng.fresh(name, 'int', 8, -128, 127)


def cstring(eng, p, n=None):
    b, off = eng.base(p)
    if b is None or not isconst(off):
        return None
    y = eng.syms[b]
    if y.rkind != 'global' or not y.extra.const or y.extra.image is None:
        return None
    img = y.extra.image[off[0]:]
    k = img.find(b'\0')
    return img[:k] if k >= 0 else img


# ---- single names ----------------------------------------------------------------------------
class IdToName:
    def __init__(self, fn, ids, cat, others, pick=None):
        self.fn, self.ids, self.cat, self.others, self.pick = fn, ids, cat, others, pick
        self.ob = 0
        self.seen = set()

    def setup(self, eng, st, args):
        if self.cat is None:
            for c in self.others:
                eng.add_ne(st, lsub(args[0], K(c)))
        else:
            eng.add_eq(st, lsub(args[0], K(self.cat)))
        self.id = args[1]
        if self.pick is not None:
            self.id = args[1] = K(self.pick)
        else:
            for k in self.ids:
                eng.add_ne(st, lsub(args[1], K(k)))
        eng.unroll_width = 80
        eng.merge_limit = 400
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        want = {k: n for k, n in self.ids.items() if self.cat == 0 or k & 0xff00 == self.cat}
        # in other categories nothing has a name
        for s, null in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if null:
                for k, n in want.items():
                    self.ob += 1
                    if not eng.prove_ne(s, lsub(self.id, K(k))):
                        eng.report(s, 'id-to-name', fn, None, 'the identifier of %s may have no name' % n)
                continue
            t = cstring(eng, eng.norm(s, v))
            i = eng.norm(s, self.id)
            if t is None or not isconst(i) or i[0] not in want or want[i[0]].encode() != t:
                eng.report(s, 'id-to-name', fn, None, 'the name %s is returned for identifier %s' % (t, want.get(i[0], hex(i[0])) if isconst(i) else 'unknown'))
            else:
                self.seen.add(i[0])


def m_compare(eng, st, c):
    """memcmp, strncmp: exact on constant lengths"""
    n = eng.norm(st, c.args[2])
    ps = [eng.norm(st, x) for x in c.args[:2]]
    bs = [eng.base(p) for p in ps]
    if not isconst(n) or any(b is None or not isconst(o) for b, o in bs) or n[0] > 300:
        return [(st, eng.retval(c))]
    cells = [[eng.norm(st, eng.load_cell(st, b, K(o[0] + i), 1, False, 8, None)) for i in range(n[0])] for b, o in bs]
    pairs = list(zip(*cells))
    if c.name == 'strncmp':
        for i, (a, b) in enumerate(pairs):
            if ZERO in (a, b):
                pairs = pairs[:i + 1]
                break
    out = []
    eq, differ = st.fork(), any(eng.prove_ne(st, lsub(a, b)) for a, b in pairs)
    if not differ:
        for a, b in pairs:
            eng.add_eq(eq, lsub(a, b))
        out.append((eq, ZERO))
    if differ or any(a != b for a, b in pairs):
        if len(pairs) == 1:
            eng.add_ne(st, lsub(*pairs[0]))
        for i in (0, 1):
            t = cstring(eng, ps[i])
            if t is not None:
                st.g['ne'] = st.g.get('ne', frozenset()) | {(bs[1 - i], tuple(x[0] if isconst(x) else None for x in cells[i][:len(pairs)]))}
        r = eng.retval(c)
        eng.add_ne(st, r)
        out.append((st, r))
    return out


class NameToId:
    def __init__(self, fn, ids, cat, others, n):
        self.fn, self.ids, self.cat, self.others, self.n = fn, ids, cat, others, n
        self.ob = 0
        self.seen = set()

    def setup(self, eng, st, args):
        if self.cat is None:
            for c in self.others:
                eng.add_ne(st, lsub(args[0], K(c)))
        else:
            eng.add_eq(st, lsub(args[0], K(self.cat)))
        if self.n is None:
            self.bytes = []
            self.at = eng.base(args[1])
            eng.add_ne(st, args[1])
            eng.add_ge(st, lsub(args[2], K(16)))
        else:
            self.bytes = [byte(eng, 'name[%d]' % i) for i in range(self.n)]
            args[1] = region(eng, st, 'name', self.bytes, False)
            self.at = eng.base(args[1])
            args[2] = K(self.n)
        eng.unroll_width = 80
        eng.merge_limit = 400
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        want = {k: n.encode() for k, n in self.ids.items() if self.cat == 0 or k & 0xff00 == self.cat}
        v = eng.norm(st, v)
        self.ob += 1
        if not isconst(v):
            eng.report(st, 'name-to-id', fn, None, 'the identifier returned is not one of a fixed list')
            return
        if v[0]:
            k = v[0]
            if k not in want:
                eng.report(st, 'name-to-id', fn, None, 'identifier 0x%x, which is unknown in the category, is returned' % k)
            elif self.n != len(want[k]):
                eng.report(st, 'name-to-id', fn, None, 'the identifier of %s is returned for a name of %s bytes' % (want[k].decode(), self.n if self.n is not None else 'more than 15'))
            elif not all(eng.prove_eq(st, b, K(x)) for b, x in zip(self.bytes, want[k])):
                eng.report(st, 'name-to-id', fn, None, 'the identifier of %s is returned for another name' % want[k].decode())
            else:
                self.seen.add(k)
            return
        if self.n is None:
            return
        for k, t in want.items():
            if len(t) != self.n:
                continue
            self.ob += 1
            if not self.differs(st, t):
                eng.report(st, 'name-to-id', fn, None, 'the name %s may be unknown' % t.decode())

    def differs(self, st, t):
        for at, x in st.g.get('ne', ()):
            if at == self.at and all(b is not None and (b == t[i] if i < len(t) else b == 0) for i, b in enumerate(x)):
                return True
        return any(self.eng.prove_ne(st, lsub(b, K(x))) for b, x in zip(self.bytes, t))


# ---- protocol names --------------------------------------------------------------------------
def lookup_model(eng, st, c):
    cat, p, n = [eng.norm(st, x) for x in c.args[:3]]
    b, off = eng.base(p)
    key = (cat[0] if isconst(cat) else None, (b, off), n)
    out = []
    if n != ZERO:
        s = st.fork()
        r = eng.fresh('id', 'int', 32, 1, 0x7fff)
        s.g['ev'] = s.g.get('ev', ()) + ((key, r),)
        s.trail = (s.trail, '%s: the name is known' % eng.where(c.fn, c.inst))
        out.append((s, r))
    st.g['ev'] = st.g.get('ev', ()) + ((key, ZERO),)
    st.trail = (st.trail, '%s: the name is unknown' % eng.where(c.fn, c.inst))
    out.append((st, ZERO))
    return out


def m_memchr(eng, st, c):
    p, ch, n = [eng.norm(st, x) for x in c.args[:3]]
    b, off = eng.base(p)
    if b is None or not isconst(off) or not isconst(n) or not isconst(ch):
        return [(st, eng.retval(c))]
    for i in range(n[0]):
        x = eng.norm(st, eng.load_cell(st, b, K(off[0] + i), 1, False, 8, None))
        if isconst(x):
            if x[0] & 255 == ch[0] & 255:
                return [(st, ladd(p, K(i)))]
        elif not eng.prove_ne(st, lsub(x, K(ch[0]))):
            return [(st, eng.retval(c))]
    return [(st, ZERO)]


class Parse:
    """shape: text in which '_' and '+' are themselves and '.' is any other byte"""

    def __init__(self, fn, shape, c):
        self.fn, self.shape, self.c = fn, shape, c
        self.ob = self.good = 0
        self.names = 0

    def setup(self, eng, st, args):
        cells = []
        for i, x in enumerate(self.shape):
            if x == '.':
                b = byte(eng, 'name[%d]' % i)
                eng.add_ne(st, lsub(b, K(95)))
                eng.add_ne(st, lsub(b, K(43)))
                cells.append(b)
            else:
                cells.append(ord(x))
        eng.add_ne(st, args[0])
        args[1] = region(eng, st, 'name', cells, False)
        args[2] = K(len(cells))
        self.id, (self.b, _) = args[0], eng.base(args[1])
        eng.unroll_width = 40
        # what the fields are looked up as
        cat = lambda n: self.c['NOISE_%s_CATEGORY' % n]
        pos, fields = 0, []
        for f in self.shape.split('_'):
            fields.append((pos, f))
            pos += len(f) + 1
        self.want = None
        if len(fields) == 5:
            dh, o = fields[2][1], fields[2][0]
            l, plus, r = dh.partition('+')
            key = lambda ct, o, t: (cat(ct), (self.b, K(o)), K(len(t)))
            self.want = {'prefix_id': key('PREFIX', *fields[0]), 'pattern_id': key('PATTERN', *fields[1]), 'dh_id': key('DH', o, l),
                         'hybrid_id': key('DH', o + len(l) + 1, r) if plus else None, 'cipher_id': key('CIPHER', *fields[3]), 'hash_id': key('HASH', *fields[4])}
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        ev = st.g.get('ev', ())
        o, size = finfo(eng.prog, PID, 'reserved')[:2]
        total = eng.prog.struct_size(PID) if hasattr(eng.prog, 'struct_size') else o + size
        words = {n: gf(eng, st, self.id, PID, n) for n in ('prefix_id', 'pattern_id', 'dh_id', 'hybrid_id', 'cipher_id', 'hash_id')}
        b, off = eng.base(eng.norm(st, self.id))
        rest = [eng.norm(st, eng.load_cell(st, b, ladd(off, K(i)), 4, False, 32, None)) for i in range(o, o + size, 4)]
        bad = lambda m: eng.report(st, 'protocol-parse', fn, None, '%s (name of the form %s)' % (m, self.shape))
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if any(not eng.prove_eq(s, x) for x in rest):
                bad('the reserved identifiers are not zero')
            if not ok:
                if not eng.prove_eq(s, v, K(self.c['NOISE_ERROR_UNKNOWN_NAME'])):
                    bad('the refusal is not the documented error')
                if any(not eng.prove_eq(s, x) for x in words.values()):
                    bad('a refused name leaves identifiers behind')
                if self.want is not None and not any(w is not None and (w[2] == ZERO or (w, ZERO) in ev) for w in self.want.values()):
                    bad('a name of which every field is known is refused')
                continue
            self.good += 1
            if self.want is None:
                bad('a name without exactly five fields is accepted')
                continue
            for n, w in self.want.items():
                if w is None:
                    if not eng.prove_eq(s, words[n]):
                        bad('%s is not zero' % n)
                elif not any(k == w and r != ZERO and eng.prove_eq(s, words[n], r) for k, r in ev):
                    bad('%s is not the identifier of its complete field' % n)


def shapes():
    base = [5, 2, 5, 6, 7]
    out = set()
    mk = lambda ls: '_'.join('.' * n for n in ls)
    for i in range(5):
        for n in list(range(0, 17)) + [255, 256, 256 + base[i]]:
            l = list(base)
            l[i] = n
            out.add(mk(l))
    for n in range(1, 8):
        out.add(mk((base + [3, 3])[:n]))
        out.add(mk([0] * n))
    out.add('')
    t = mk(base)
    for i in range(len(t) + 1):
        out.add(t[:i] + '+' + t[i:])
        out.add(t[:i] + '_' + t[i:])
    for i in range(9, 15):
        out.add(t[:i] + '+' + t[i:14] + '+' + t[14:])
    for d in ('.....+.......', '.....+', '+.......', '+', '++', '...+..+..', '.....+.......+', '.....++.......'):
        out.add('....._.._%s_......_.......' % d)
        out.add('....._.._%s' % d)
        out.add('....._.._%s_' % d)
        out.add('....._.._%s_......_......._' % d)
    return sorted(out)


class Format:
    """lens: lengths of the six names; hyb: a hybrid identifier is present"""

    def __init__(self, fn, lens, hyb, c):
        self.fn, self.lens, self.hyb, self.c = fn, lens, hyb, c
        self.ob = self.good = 0

    def setup(self, eng, st, args):
        self.name, self.len, self.id = args[:3]
        eng.add_ne(st, self.name)
        eng.add_ne(st, self.id)
        eng.add_ge(st, lsub(self.len, ONE))
        order = ['prefix_id', 'pattern_id', 'dh_id', 'hybrid_id', 'cipher_id', 'hash_id']
        cats = ['PREFIX', 'PATTERN', 'DH', 'DH', 'CIPHER', 'HASH']
        self.ids = {n: ef(eng, self.id, PID, n) for n in order}
        (eng.add_ne if self.hyb else eng.add_eq)(st, self.ids['hybrid_id'])
        self.text = {}
        for n, ct, l in zip(order, cats, self.lens):
            cells = [eng.fresh('%s[%d]' % (n, i), 'int', 8, 1, 127) for i in range(l)]
            self.text[n] = (self.c['NOISE_%s_CATEGORY' % ct], cells, region(eng, st, n, cells + [0]))
        w = []
        for n in order:
            if n == 'hybrid_id' and not self.hyb:
                continue
            w += self.text[n][1] + [K(43 if n == 'dh_id' and self.hyb else 95)]
        w[-1] = ZERO
        self.out = w
        # the identifiers are read from an object that the result buffer is no part of
        for n in order:
            gf(eng, st, self.id, PID, n)
        eng.unroll_width = 60
        return st

    def model(self, eng, st, c):
        cat, i = [eng.norm(st, x) for x in c.args[:2]]
        res = []
        for n, (ct, cells, p) in self.text.items():
            if cat == K(ct) and eng.prove_eq(st, i, self.ids[n]):
                s = st.fork()
                s.g['named'] = s.g.get('named', frozenset()) | {n}
                res.append((s, p))
                break
        else:
            st.g['alien'] = eng.where(c.fn, c.inst)
        st.g['unnamed'] = st.g.get('unnamed', 0) + 1
        st.trail = (st.trail, '%s: the identifier has no name' % eng.where(c.fn, c.inst))
        return res + [(st, ZERO)]

    def on_return(self, st, v, fn):
        eng = self.eng
        bad = lambda s, m: eng.report(s, 'protocol-format', fn, None, m)
        if 'alien' in st.g:
            bad(st, 'a name is looked up for something other than the identifiers of the protocol in their categories')
            return
        o, size = finfo(eng.prog, PID, 'reserved')[:2]
        b, off = eng.base(self.id)
        rest = []
        for i in range(o, o + size, 4):
            y = eng.newsym(('lazy', b, off[0] + i, 4, 'int', ()), eng.lazyname(b, off[0] + i), 'int', 32)
            rest.append((0, ((y.id, 1),)))
        nb, no = eng.base(self.name)
        cell = lambda s, i: eng.norm(s, eng.load_cell(s, nb, ladd(no, K(i)), 1, False, 8, None))
        room = lsub(self.len, K(len(self.out)))
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if ok:
                self.good += 1
                if not eng.prove_ge(s, room):
                    bad(s, 'success is reported although the text and its terminator may not fit')
                if any(not eng.prove_eq(s, x) for x in rest):
                    bad(s, 'reserved identifiers that are not zero are ignored')
                if s.g.get('unnamed'):
                    bad(s, 'an identifier without a name is formatted')
                for i, w in enumerate(self.out):
                    if not eng.prove_eq(s, cell(s, i), w):
                        bad(s, 'byte %d of the formatted name is wrong' % i)
                        break
                continue
            if not eng.prove_eq(s, cell(s, 0)):
                bad(s, 'a refusal does not leave an empty string')
            if eng.prove_eq(s, v, K(self.c['NOISE_ERROR_INVALID_LENGTH'])):
                if not eng.prove_ge(s, lsub(K(len(self.out) - 1), self.len)):
                    bad(s, 'a buffer with enough room is refused')
            elif eng.prove_eq(s, v, K(self.c['NOISE_ERROR_UNKNOWN_ID'])):
                if not s.g.get('unnamed') and not any(eng.prove_ne(s, x) for x in rest):
                    bad(s, 'identifiers that all have names are refused')
            else:
                bad(s, 'the refusal is not a documented error')


# ---- error codes -----------------------------------------------------------------------------
class Errors:
    def __init__(self, fn, code, lo=None, hi=None):
        self.fn, self.code, self.lo, self.hi = fn, code, lo, hi
        self.ob = 0
        self.texts = set()

    def setup(self, eng, st, args):
        i = next(i for i, (t, n) in enumerate(self.fn.params) if t == ('int', 32))
        if self.code is not None:
            eng.add_eq(st, lsub(args[i], K(self.code)))
        else:
            eng.add_ge(st, lsub(args[i], K(self.lo)))
            eng.add_ge(st, lsub(K(self.hi), args[i]))
        self.args = args
        if self.fn.name == 'noise_perror':
            eng.add_ne(st, args[0])
        return st

    def take(self, st, p):
        if p is None or isinstance(p, (Pred, Agg)):
            return
        t = cstring(self.eng, self.eng.norm(st, p))
        if t is not None and b'%' not in t:
            st.g['text'] = st.g.get('text', ()) + (t.decode('latin1'),)

    def on_call(self, st, c):
        if c.name.startswith(('llvm.memcpy', 'memcpy', 'strncpy', 'strlcpy', 'strcpy', 'snprintf', 'fprintf', 'fputs', 'printf')):
            for a in c.args[1:]:
                self.take(st, a)

    def on_return(self, st, v, fn):
        eng = self.eng
        bad = lambda s, m: eng.report(s, 'error-strings', fn, None, m)
        outs = [(st, True)]
        if fn.name == 'noise_strerror':
            outs = eng.split(st, Pred('eq', v))
        for s, ok in outs:
            self.ob += 1
            t = s.g.get('text', ())
            if not ok:
                if not (eng.prove_eq(s, self.args[1]) or eng.prove_eq(s, self.args[2])):
                    bad(s, 'a request for an error text with a proper buffer fails')
                continue
            if self.code is None:
                if t:
                    bad(s, 'the text "%s" is given for a code that is not an error code' % t[0])
            elif len(set(t)) != 1:
                bad(s, 'error code 0x%x has %s' % (self.code, 'no text' if not t else 'several texts'))
            else:
                self.texts.add(t[0])
            if fn.name == 'noise_strerror':
                b, off = eng.base(self.args[1])
                last = eng.norm(s, eng.load_cell(s, b, ladd(off, lsub(self.args[2], ONE)), 1, False, 8, None))
                if not eng.prove_eq(s, last):
                    bad(s, 'the error text may lack its terminator')


# ---- jobs ------------------------------------------------------------------------------------
def job(item):
    lib, kind, f, a = item
    ids, _, c = known()
    others = [0] + [c['NOISE_%s_CATEGORY' % x] for x in CATS]
    if kind == 'id':
        res, seen = Result(), set()
        for k in [None] + sorted(ids):
            cl = IdToName(f, ids, a, others, k)
            e = lib.engine([cl])
            e.run(f, cl.setup)
            r = engine_result(e, lambda rep: 'category %s' % a, lib.prog.config)
            r.count('obligations', cl.ob)
            res.merge(r)
            seen |= cl.seen
        res.count('lookup_runs')
        res.seen = (kind, a, seen)
        return res
    if kind == 'name':
        cl = NameToId(f, ids, a[0], others, a[1])
        e = lib.engine([cl], override={'memcmp': m_compare, 'strncmp': m_compare, 'bcmp': m_compare})
    elif kind == 'parse':
        res = Result()
        for shape in a:
            cl = Parse(f, shape, c)
            e = lib.engine([cl], override={'noise_name_to_id': lookup_model, 'memchr': m_memchr})
            e.run(f, cl.setup)
            r = engine_result(e, lambda rep: shape, lib.prog.config)
            if cl.want and all(w is None or w[2] != ZERO for w in cl.want.values()) and not cl.good and not r.viol:
                e.report(State(), 'protocol-parse', f, None, 'no name of the form %s is ever accepted' % shape)
                r = engine_result(e, lambda rep: shape, lib.prog.config)
            r.count('obligations', cl.ob)
            r.count('parse_shapes')
            res.merge(r)
        return res
    elif kind == 'format':
        cl = Format(f, a[0], a[1], c)
        e = lib.engine([cl], override={'noise_id_to_name': cl.model})
    else:
        cl = Errors(f, *a)
        e = lib.engine([cl])
    e.run(f, cl.setup)
    if kind == 'format' and not cl.good and not e.reports:
        e.report(State(), 'protocol-format', f, None, 'no protocol of this form is ever formatted')
    r = engine_result(e, lambda rep: '%s %s' % (f.name, a), lib.prog.config)
    r.count('obligations', cl.ob)
    if kind == 'name':
        r.count('lookup_runs')
        r.seen = (kind, a[0], cl.seen)
    elif kind == 'format':
        r.count('format_shapes')
    else:
        r.texts = (f.name, a[0], cl.texts)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    ids, bad, c = known()
    ctx.count('names', len(ids))
    for m in bad:
        ctx.violation('identifiers', 'include/noise/protocol/constants.h', m.split()[0], m)
    inv = {}
    for k, n in ids.items():
        if n in inv:
            ctx.violation('identifiers', 'include/noise/protocol/constants.h', n, 'two identifiers have the name %s' % n)
        inv[n] = k
    i2n, n2i = ctx.fn(lib, 'noise_id_to_name'), ctx.fn(lib, 'noise_name_to_id')
    cats = [0, None] + [c['NOISE_%s_CATEGORY' % x] for x in CATS]
    items = [(lib, 'id', i2n, ct) for ct in cats]
    items += [(lib, 'name', n2i, (ct, n)) for ct in cats for n in list(range(0, 17)) + [None]]
    pf = ctx.fn(lib, 'noise_protocol_name_to_id')
    sh = shapes()
    items += [(lib, 'parse', pf, sh[i::24]) for i in range(24)]
    ff = ctx.fn(lib, 'noise_protocol_id_to_name')
    for lens in ((5, 2, 5, 7, 10, 7), (8, 14, 3, 5, 6, 6), (1, 1, 1, 1, 1, 1), (2, 3, 4, 5, 6, 7)):
        items += [(lib, 'format', ff, (lens, h)) for h in (False, True)]
    codes = {m[len('NOISE_ERROR_'):]: v for m, v in errcodes.constants('NOISE_ERROR_').items()}
    efs = [ctx.fn(lib, 'noise_strerror'), ctx.fn(lib, 'noise_perror')]
    known_codes = sorted(codes.values())
    hi, pos = known_codes[-1], [x for x in known_codes if x > 0]
    for e in efs:
        items += [(lib, 'err', e, (v,)) for v in known_codes]
        items += [(lib, 'err', e, (None, -1 << 31, -1)), (lib, 'err', e, (None, 1, pos[0] - 1)), (lib, 'err', e, (None, hi + 1, (1 << 31) - 1))]
    results = ctx.pmap(job, items)
    ctx.count('error_codes', len(codes))
    if len(set(known_codes)) != len(codes) or [x for x in range(pos[0], hi + 1) if x not in known_codes]:
        ctx.violation('error-strings', 'include/noise/protocol/constants.h', 'codes', 'the error codes are not distinct and contiguous')
    by = {v: m for m, v in codes.items()}
    for e in efs:
        got = {}
        for r in results:
            if getattr(r, 'texts', None) and r.texts[0] == e.name and r.texts[1] is not None:
                m = by[r.texts[1]]
                for t in r.texts[2]:
                    ctx.count('obligations', 2)
                    if ERRORS.get(m, m.lower().replace('_', ' ')) not in t.lower():
                        ctx.violation('error-strings', e.name, m, 'the text of NOISE_ERROR_%s is "%s"' % (m, t))
                    if got.setdefault(t, m) != m:
                        ctx.violation('error-strings', e.name, m, 'NOISE_ERROR_%s has the text of NOISE_ERROR_%s' % (m, got[t]))
    for ct in cats:
        for kind in ('id', 'name'):
            seen = set()
            for r in results:
                if getattr(r, 'seen', None) and r.seen[:2] == (kind, ct):
                    seen |= r.seen[2]
            for k, n in ids.items():
                if ct is not None and (ct == 0 or k & 0xff00 == ct) and k not in seen and not any(getattr(x, 'viol', None) for x in results):
                    ctx.violation('id-to-name' if kind == 'id' else 'name-to-id', 'src/protocol/names.c', n, 'the identifier of %s is never reached' % n)
