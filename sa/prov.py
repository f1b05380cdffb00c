"""Content provenance: for every path, which term each byte range written in the function holds.

A term is ('in', ptr, len): what the caller left there; ('hash', (t, ...)): the digest of the concatenation; ('hkdf', i, key, data):
the i-th HKDF output; ('zero',), ('val', v), ('enc', ad, plain), ('dec', ad, cipher), ('empty',), ('rand',) or ('mixed',) when a read does not
coincide with one write.  Hash objects are followed through their reset/update/finalize slots, so a helper and its body are the
same thing to the rules."""
from .absint import *
from . import clients
from .libmodels import gf, ef, finfo

HASH, CS, NB = 'NoiseHashState_s', 'NoiseCipherState_s', 'NoiseBuffer'
INLINE = ['noise_hashstate_hash_one', 'noise_hashstate_hash_two', 'noise_hashstate_reset', 'noise_hashstate_update',
          'noise_hashstate_finalize']
OWN = {'slot:NoiseHashState_s.finalize', 'noise_hashstate_hkdf', 'noise_cipherstate_encrypt_with_ad', 'noise_cipherstate_decrypt_with_ad',
       'noise_cipherstate_init_key', 'noise_hashstate_pbkdf2', 'noise_rand_bytes', 'noise_symmetricstate_mix_hash', 'noise_symmetricstate_mix_key',
       'noise_cipherstate_encrypt', 'noise_cipherstate_decrypt', 'noise_randstate_generate', 'noise_dhstate_calculate', 'slot:NoiseDHState_s.calculate'}


class Prov(clients.ErrFork):
    def __init__(self, extra=(), transcript=False):
        super().__init__(extra)
        self.transcript = transcript      # mix_hash and mix_key are events
        self.reads = 0

    # ---- writes
    def put(self, st, p, n, term):
        eng = self.eng
        p, n = eng.norm(st, p), eng.norm(st, n)
        if eng.prove_eq(st, n):
            return
        st.g['prov'] = st.g.get('prov', ()) + ((p, n, term),)

    def on_store(self, st, b, off, size, val, inst, fn):
        if b is None:
            return
        v = val if isinstance(val, (tuple, Pred)) else None
        self.put(st, ladd((0, ((b, 1),)), off), K(size), ('val', v))

    def on_fill(self, st, b, off, val, length):
        if b is not None:
            v = val if isinstance(val, tuple) else None
            self.put(st, ladd((0, ((b, 1),)), off), length, ('zero',) if v is not None and isconst(v) and v[0] & 255 == 0 else ('fill', v))

    def on_copy(self, st, db, doff, sb, soff, length):
        if db is None:
            return
        t = self.content(st, ladd((0, ((sb, 1),)), soff), length) if sb is not None else ('mixed',)
        self.put(st, ladd((0, ((db, 1),)), doff), length, t)

    def on_clobber(self, st, b, off, length, why):
        if b is None or (why is not None and getattr(why, 'name', None) in OWN):
            return
        self.put(st, ladd((0, ((b, 1),)), off), length if length is not None else K(1 << 62), ('by', getattr(why, 'name', None)))

    # ---- reads
    def content(self, st, p, n, upto=None):
        eng = self.eng
        self.reads += 1
        p, n = eng.norm(st, p), eng.norm(st, n)
        if eng.prove_eq(st, n):
            return ('empty',)
        b, off = eng.base(p)
        hist = st.g.get('prov', ())
        for i in range((len(hist) if upto is None else upto) - 1, -1, -1):
            q, m, t = hist[i]
            qb, qoff = eng.base(eng.norm(st, q))
            if b is None or qb is None:
                if eng.prove_eq(st, p, q) and eng.prove_eq(st, n, m):
                    return t
                return ('mixed',)
            if qb != b:
                continue
            if eng.prove_eq(st, qoff, off):
                if eng.prove_eq(st, m, n):
                    return t
                if t == ('zero',) and eng.prove_ge(st, lsub(m, n)):
                    return t
                if eng.prove_ge(st, lsub(m, n)):
                    return ('part', ZERO, n, t)
                if eng.prove_ge(st, lsub(n, m)):
                    return self.cat(t, self.content(st, ladd(p, m), lsub(n, m), i))
                return ('mixed',)
            if eng.prove_ge(st, lsub(off, ladd(qoff, m))) or eng.prove_ge(st, lsub(qoff, ladd(off, n))):
                continue
            if t == ('zero',) and eng.prove_ge(st, lsub(off, qoff)) and eng.prove_ge(st, lsub(ladd(qoff, m), ladd(off, n))):
                return t
            if eng.prove_ge(st, lsub(off, qoff)) and eng.prove_ge(st, lsub(ladd(qoff, m), ladd(off, n))):
                return ('part', lsub(off, qoff), n, t)
            if eng.prove_ge(st, lsub(qoff, off)) and eng.prove_eq(st, lsub(ladd(qoff, m), ladd(off, n))):
                return self.cat(self.content(st, p, lsub(qoff, off), i), t)
            return ('mixed',)
        if b is not None:
            r = st.mem.get(b)
            if r is not None and r.zero and eng.syms[b].rkind == 'heap':
                return ('zero',)
        return ('in', p, n)

    def cat(self, a, b):
        if a == ('mixed',) or b == ('mixed',):
            return ('mixed',)
        if a == b == ('zero',):
            return a
        l = [x for y in (a, b) for x in (y[1] if y[0] == 'cat' else (y,)) if x != ('empty',)]
        return l[0] if len(l) == 1 else ('cat', tuple(l)) if l else ('empty',)

    def same(self, st, a, b):
        """are two terms provably the same content in this state"""
        if a is None or b is None or isinstance(a, Pred) or isinstance(b, Pred):
            return False
        if a == b:
            return a != ('mixed',)
        eng = self.eng
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and isinstance(a[0], int) and isinstance(b[0], int):
            return eng.prove_eq(st, a, b)
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return a == b
        if len(a) != len(b):
            return False
        return all(self.same(st, x, y) for x, y in zip(a, b))

    # ---- events
    def note(self, st, *e):
        st.g['pev'] = st.g.get('pev', ()) + (e,)

    def buf(self, st, b):
        return gf(self.eng, st, b, NB, 'data'), gf(self.eng, st, b, NB, 'size')

    def on_call(self, st, c):
        eng = self.eng
        n, a = c.name, c.args
        w = (eng.where(c.fn, c.inst), c.fn, c.inst)
        c.prov = None
        if n == 'slot:NoiseHashState_s.reset':
            st.g['hacc'] = self.hset(st, a[0], ())
        elif n == 'slot:NoiseHashState_s.update':
            t = self.content(st, a[1], a[2])
            if t != ('empty',):
                old = self.hget(st, a[0])
                st.g['hacc'] = self.hset(st, a[0], old + (t,))
        elif n == 'slot:NoiseHashState_s.finalize':
            ln = gf(eng, st, a[0], HASH, 'hash_len')
            self.put(st, a[1], ln, ('hash', self.hget(st, a[0])))
            st.g['hacc'] = self.hset(st, a[0], (('stale',),))
        elif n == 'noise_hashstate_hkdf':
            k, d = self.content(st, a[1], a[2]), self.content(st, a[3], a[4])
            self.note(st, 'hkdf', k, d, a[6], a[8], w)
            c.prov = [(a[5], a[6], ('hkdf', 1, k, d)), (a[7], a[8], ('hkdf', 2, k, d))]
        elif n == 'noise_cipherstate_init_key':
            c.prov = [('init', a[0], self.content(st, a[1], a[2]), a[2], w)]
        elif n in ('noise_cipherstate_encrypt_with_ad', 'noise_cipherstate_decrypt_with_ad'):
            d, z = self.buf(st, a[3])
            kind = 'enc' if 'encrypt' in n else 'dec'
            t = (kind, self.content(st, a[1], a[2]), self.content(st, d, z))
            c.prov = [('crypt', t, d, a[3], a[0], w)]
        elif n == 'noise_rand_bytes':
            self.put(st, a[0], a[1], ('rand',))
        if self.transcript and n in ('noise_symmetricstate_mix_hash', 'noise_symmetricstate_mix_key'):
            c.prov = [(n[-4:], a[0], self.content(st, a[1], a[2]), w)]

    def on_call_done(self, st, c, ret):
        res = super().on_call_done(st, c, ret)
        if not getattr(c, 'prov', None):
            return res
        eng = self.eng
        out = res if res is not None else [(st, ret)]
        for s, r in out:
            ok = not isinstance(r, tuple) or eng.decide(s, Pred('eq', r)) is True
            for e in c.prov:
                if e[0] == 'init':
                    if ok:
                        self.note(s, *e)
                elif e[0] == 'crypt':
                    _, t, d, b, ci, w = e
                    self.note(s, t[0], t, ci, ok, w)
                    n2 = gf(eng, s, b, NB, 'size')
                    self.put(s, d, n2, t if ok else ('mixed',))
                elif e[0] in ('hash', '_key'):
                    if ok:
                        self.note(s, 'mix' + e[0].replace('_', ''), e[2], e[1], e[3])
                elif ok:
                    self.put(s, *e)
                else:
                    self.put(s, e[0], e[1], ('mixed',))
        return out

    # hash object -> accumulated input
    def hget(self, st, obj):
        for o, acc in st.g.get('hacc', ()):
            if self.eng.prove_eq(st, o, obj):
                return acc
        return (('stale',),)

    def hset(self, st, obj, acc):
        obj = self.eng.norm(st, obj)
        return tuple((o, x) for o, x in st.g.get('hacc', ()) if not self.eng.prove_eq(st, o, obj)) + ((obj, acc),)


def showterm(eng, t):
    from .clients import show
    if t is None:
        return '?'
    k = t[0]
    if k == 'in':
        return 'the caller\'s %s[%s]' % (show(eng, t[1]), show(eng, t[2]))
    if k == 'hash':
        return 'HASH(' + ' || '.join(showterm(eng, x) for x in t[1]) + ')'
    if k == 'hkdf':
        return 'HKDF%d(%s, %s)' % (t[1], showterm(eng, t[2]), showterm(eng, t[3]))
    if k in ('enc', 'dec'):
        return '%s(ad=%s, %s)' % (k, showterm(eng, t[1]), showterm(eng, t[2]))
    if k == 'val':
        return 'the value ' + (show(eng, t[1]) if isinstance(t[1], tuple) else '?')
    if k == 'cat':
        return ' || '.join(showterm(eng, x) for x in t[1])
    if k == 'by':
        return 'what %s wrote' % t[1]
    if k == 'part':
        return 'part of ' + showterm(eng, t[3])
    return k
