"""C12: freeing or clearing an object erases all of its secrets and sub-objects."""
from ..absint import *
from .. import slots
from .. import models as M
from ..libmodels import gf, sf, ef, finfo, fieldoff
from ..handshake import const
from ..run import Result, engine_result, V, Broken

RULES = [
    'erase-helper: the two releasing helpers zero every byte of the block through volatile accesses and only then give it back, exactly once; a null pointer is left alone; a new object is zeroed and records the size of its own block',
    'whole-block: wherever the library releases a block, it is given to an erasing helper together with the length of the whole block (the size recorded in an object, the length stored beside a pointer, the size of a message structure, the size or the extent written of a block allocated on the path); only a block nothing was ever written to may be given back otherwise; the size recorded in an object never changes',
    'sub-objects: on every path that releases an object, each sub-object it owns that is not null is released exactly once (each element of a list, for lists of up to three elements) and the destructor of the backend, where there is one, is called once; then the object itself is released, once',
    'clear-key: clearing a key, setting a public or null public key, and failing to set a key pair leave every byte of the private key zero and no private key recorded',
]
EXPLANATION = 'every release on every path of every function in each configuration; every path of the destructors with each owned field null and not null; every path of the key functions'
MIN = {'release_sites': 60, 'functions': 400, 'destructors': 16, 'owned_fields': 40, 'key_functions': 8, 'obligations': 900, 'helper_sizes': 60}
ASSUMPTIONS = ['distinct pointers found in the objects of the caller point to distinct objects']
HELPERS = ('noise_free', 'noise_protobuf_free_memory')
DH, SG, HS, SS = 'NoiseDHState_s', 'NoiseSignState_s', 'NoiseHandshakeState_s', 'NoiseSymmetricState_s'
STATES = ('NoiseCipherState_s', 'NoiseHashState_s', DH, SG, SS, HS, 'NoiseRandState_s')
OWNED = {HS: ['symmetric', 'dh_local_static', 'dh_local_ephemeral', 'dh_local_hybrid', 'dh_remote_static', 'dh_remote_ephemeral', 'dh_remote_hybrid',
              'dh_fixed_ephemeral', 'dh_fixed_hybrid', 'prologue'],
         SS: ['cipher', 'hash']}
GROW = {'noise_protobuf_add_to_array': (('array', 0),), 'noise_protobuf_add_to_string_array': (('array', 0), ('len_array', 1)),
        'noise_protobuf_add_to_bytes_array': (('array', 0), ('len_array', 1)), 'noise_protobuf_insert_into_array': (('array', 0),)}


def structsize(prog, s):
    n = max(o + sz for o, sz, *_ in prog.fieldinfo[s].values())
    return (n + 7) // 8 * 8


# ---- helpers ---------------------------------------------------------------------------------
class Helper:
    def __init__(self, fn, n, null):
        self.fn, self.n, self.null = fn, n, null
        self.ob = 0

    def setup(self, eng, st, args):
        self.p, self.b = args[0], eng.base(args[0])[0]
        (eng.add_eq if self.null else eng.add_ne)(st, args[0])
        args[1] = K(self.n)
        return st

    def on_store(self, st, b, off, size, val, inst, fn):
        if b is None or self.eng.syms[b].rkind == 'alloca':
            return
        if b == self.b and inst is not None and inst.op == 'store' and inst.a[3] and isconst(off) and isinstance(val, tuple) and self.eng.norm(st, val) == ZERO:
            st.g['done'] = st.g.get('done', frozenset()) | set(range(off[0], off[0] + size))

    def on_call(self, st, c):
        if c.name != 'free':
            return
        st.g['freed'] = st.g.get('freed', 0) + 1
        bad = lambda m: self.eng.report(st, 'erase-helper', c.fn, c.inst, '%s %s' % (self.fn.name, m))
        if not self.null and self.eng.base(self.eng.norm(st, c.args[0])) != (self.b, ZERO):
            bad('frees something other than its block')
        if not self.null and not st.g.get('done', frozenset()) >= set(range(self.n)):
            bad('gives a block back before every byte of it is erased')

    def on_return(self, st, v, fn):
        self.ob += 1
        if st.g.get('freed', 0) != 1 and not self.null:
            self.eng.report(st, 'erase-helper', fn, None, '%s does not give the block back exactly once' % fn.name)


class NewObject:
    def __init__(self, fn):
        self.fn, self.ob = fn, 0

    def setup(self, eng, st, args):
        self.size = args[0]
        eng.add_ge(st, lsub(args[0], K(8)))
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, null in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if null:
                continue
            b, off = eng.base(eng.norm(s, v))
            y = eng.syms[b] if b is not None else None
            if y is None or y.rkind != 'heap' or off != ZERO or y.size is None or not eng.prove_eq(s, y.size, self.size):
                eng.report(s, 'erase-helper', fn, None, 'a new object is not a fresh block of the requested size')
                continue
            if not eng.prove_eq(s, eng.load_cell(s, b, ZERO, 8, False, 64, None), self.size):
                eng.report(s, 'erase-helper', fn, None, 'a new object does not record its size')
            if not eng.prove_eq(s, eng.load_cell(s, b, K(8), 8, False, 64, None)) and not s.mem[b].zero:
                eng.report(s, 'erase-helper', fn, None, 'a new object is not zeroed')


def new_model(eng, st, c):
    outs = M.heap_alloc(eng, st, c, c.args[0], True)
    for o in outs:
        s, v = o[0], o[1]
        b = eng.base(eng.norm(s, v))[0]
        if b is not None:
            eng.store_cell(s, b, ZERO, 8, c.args[0])
    return outs


# ---- releases --------------------------------------------------------------------------------
class Release:
    def __init__(self, fn, ptypes, grow=None):
        self.fn, self.ptypes, self.grow = fn, ptypes, grow
        self.ob = 0
        self.sites = set()
        self.src = {}

    def companion(self, b, off):
        """(offset of the length kept beside the pointer in this cell, unit, is a pointer) or None"""
        f = self.eng.fieldof.get((b, off))
        if not f or not isinstance(off, int):
            return None
        s, n = f
        names = self.eng.prog.fieldinfo.get(s, {})
        if n not in names:
            return None
        base = off - names[n][0]
        for suf, k in (('_size_', 1), ('_len', 1), ('_max_', 8)):
            if names[n][2] and n + suf in names:
                return base + names[n + suf][0], k, names[n + suf][1]

    def pointer_of(self, b, off):
        f = self.eng.fieldof.get((b, off))
        if f:
            for suf in ('_size_', '_len', '_max_'):
                names = self.eng.prog.fieldinfo.get(f[0], {})
                if f[1].endswith(suf) and f[1][:-len(suf)] in names and names[f[1][:-len(suf)]][2]:
                    return off - names[f[1]][0] + names[f[1][:-len(suf)]][0]

    def on_load(self, st, b, off, size, v, inst, fn):
        eng = self.eng
        if b is None or not isconst(off) or not isinstance(v, tuple):
            return
        f = eng.fieldof.get((b, off[0]))
        if f and f[1].endswith('_max_'):
            eng.add_ge(st, lsub(K(1 << 40), v))
        vb = eng.base(eng.norm(st, v))[0]
        if vb is not None:
            self.src[vb] = (b, off[0])

    def setup(self, eng, st, args):
        self.params = {}
        self.args = args
        for i, a in enumerate(args):
            t = self.ptypes[i + 1] if i + 1 < len(self.ptypes) else None
            if t and t[1] == 1:
                self.params[eng.base(a)[0]] = t[0]
        if self.grow is not None:
            n, names = self.grow, [x[1] for x in self.fn.params]
            mx = names.index('max')
            for a in args[:mx + 1]:
                eng.add_ne(st, a)
            for i in (mx, mx - 1):
                eng.store_cell(st, eng.base(args[i])[0], ZERO, 8, K(n))
            if 'index' in names:
                args[names.index('index')] = K(n // 2)
            if self.fn.name.endswith('_array') and 'block' not in self.fn.name and 'string' not in self.fn.name and 'bytes' not in self.fn.name:
                args[-1] = K(8)
        return st

    def bad(self, st, c, m):
        self.eng.report(st, 'whole-block', c.fn, c.inst, m)

    def extent(self, st, b, off, n):
        if b is None or self.eng.syms[b].rkind not in ('heap',):
            return
        e, size = ladd(off, n) if n is not None else None, self.eng.syms[b].size
        if size is not None and isconst(size) and e is not None and isconst(e):
            e = size
        st.g['wr'] = st.g.get('wr', frozenset()) | {(b, e)}

    def on_back_edge(self, st, fn, header):
        wr, top = set(), {}
        for b, e in st.g.get('wr', ()):
            if e is not None and isconst(e):
                top[b] = max(top.get(b, 0), e[0])
            else:
                wr.add((b, e))
        if 'wr' in st.g:
            st.g['wr'] = frozenset(wr | {(b, K(n)) for b, n in top.items()})

    def on_store(self, st, b, off, size, val, inst, fn):
        eng = self.eng
        if b is not None and isconst(off) and self.companion(b, off[0]):
            st.g['stale'] = st.g.get('stale', frozenset()) - {(b, off[0])}
            st.g['fresh'] = st.g.get('fresh', frozenset()) | {(b, off[0])}
        elif b is not None and isconst(off) and self.pointer_of(b, off[0]) is not None:
            c = (b, self.pointer_of(b, off[0]))
            if c in st.g.get('fresh', ()):
                st.g['fresh'] = st.g['fresh'] - {c}
            elif not eng.prove_eq(st, eng.load_cell(st, b, K(c[1]), 8, True, 64, None)):
                st.g['stale'] = st.g.get('stale', frozenset()) | {c}
        if b is not None and inst is not None and inst.op == 'store':
            if not (isinstance(val, tuple) and eng.norm(st, val) == ZERO):
                self.extent(st, b, off, K(size))
            f = eng.fieldof.get((b, off[0] if isconst(off) else off))
            if f and f[1] == 'size' and f[0] in STATES and eng.syms[b].rkind != 'alloca':
                y = eng.syms[b]
                if not (y.rkind == 'heap' and y.size is not None and isinstance(val, tuple) and eng.prove_eq(st, val, y.size)):
                    eng.report(st, 'whole-block', fn, inst, 'the recorded size of an object is changed')

    def on_copy(self, st, db, doff, sb, soff, n):
        self.extent(st, db, doff, n)

    def on_fill(self, st, b, off, val, n):
        if not (isinstance(val, tuple) and self.eng.norm(st, val) == ZERO):
            self.extent(st, b, off, n)

    def on_clobber(self, st, b, off, n, why):
        if isinstance(why, Call) and why.name == 'fread':
            return
        self.extent(st, b, off, n)

    def on_call_done(self, st, c, ret):
        if c.name == 'fread' and isinstance(ret, tuple):
            b, off = self.eng.base(self.eng.norm(st, c.args[0]))
            w = self.eng.norm(st, c.args[1])
            if isconst(w) and b is not None:
                self.extent(st, b, off, lscale(ret, w[0]))
        return None

    def on_call(self, st, c):
        eng = self.eng
        if c.name not in HELPERS and c.name not in ('free', 'realloc'):
            return
        p = eng.norm(st, c.args[0])
        if eng.prove_eq(st, p):
            return
        self.ob += 1
        self.sites.add(eng.where(c.fn, c.inst))
        b, off = eng.base(p)
        if b is None:
            return self.bad(st, c, 'releases a pointer of unknown origin')
        y = eng.syms[b]
        wr = [e for r, e in st.g.get('wr', ()) if r == b]
        if c.name in ('free', 'realloc'):
            if y.rkind == 'heap' and not wr:
                return
            return self.bad(st, c, 'gives a block back without erasing it')
        n = eng.norm(st, c.args[1])
        want, what = self.expect(st, b, off, y)
        if want is not None and (eng.prove_ge(st, lsub(n, want))):
            return
        if y.rkind == 'heap' and all(e is not None and eng.prove_ge(st, lsub(n, e)) for e in wr) and (wr or y.size is None):
            return
        if y.rkind == 'heap' and not wr:
            return
        if want is None:
            return self.bad(st, c, 'releases a block whose length is not known')
        self.bad(st, c, 'erases a length other than %s before releasing the block' % what)

    def expect(self, st, b, off, y):
        eng = self.eng
        if off != ZERO:
            return None, 'no block'
        if y.rkind == 'heap' and y.size is not None:
            return y.size, 'the size of the block'
        # an object of the caller
        t = self.params.get(b)
        if t and t in eng.prog.fieldinfo:
            if 'size' in eng.prog.fieldinfo[t] and finfo(eng.prog, t, 'size')[0] == 0 and t in STATES:
                return ef(eng, (0, ((b, 1),)), t, 'size'), 'the size recorded in the object'
            return K(structsize(eng.prog, t)), 'the size of the structure'
        og = y.origin if isinstance(y.origin, tuple) else ()
        cell = self.src.get(b)
        if cell:
            k = self.companion(*cell)
            if k:
                if cell in st.g.get('stale', ()):
                    return None, 'no block'
                return lscale(eng.load_cell(st, cell[0], K(k[0]), k[2], False, 64, None), k[1]), 'the length stored beside the pointer'
        if og and og[0] == 'lazy':
            pb, po = og[1], og[2]
            if self.grow is not None and eng.syms[pb].rkind == 'param' and po == 0:
                return K(8 * self.grow), 'the size of the list'
            # a sub-object reached through a pointer: its own size word
            for s in STATES:
                if eng.fieldof.get((b, 0)) == (s, 'size'):
                    return ef(eng, (0, ((b, 1),)), s, 'size'), 'the size recorded in the object'
        return None, 'no block'


# ---- destructors -----------------------------------------------------------------------------
class Destroy:
    def __init__(self, fn, struct, owned, lists, slot, count):
        self.fn, self.struct, self.owned, self.lists, self.slot, self.count = fn, struct, owned, lists, slot, count
        self.ob = 0

    def setup(self, eng, st, args):
        p, s = args[0], self.struct
        self.p = p
        eng.add_ne(st, p)
        self.want = {f: ef(eng, p, s, f) for f in self.owned}
        for f in self.lists:
            sf(eng, st, p, s, f + '_count_', K(self.count))
            sf(eng, st, p, s, f + '_max_', K(max(self.count, 4)))
            arr = ef(eng, p, s, f)
            if self.count:
                eng.add_ne(st, arr)
            ab = eng.base(arr)[0]
            for i in range(self.count):
                y = eng.newsym(('lazy', ab, 8 * i, 8, 'ptr', ()), eng.lazyname(ab, 8 * i), 'ptr', 64)
                if y.rkind is None:
                    y.rkind = 'lazy'
                self.want['%s[%d]' % (f, i)] = (0, ((y.id, 1),))
        self.dslot = ef(eng, p, s, 'destroy') if self.slot else None
        return st

    def on_call(self, st, c):
        if c.args and (c.name.endswith('_free') or c.name in HELPERS or c.name.endswith('.destroy')):
            st.g['rel'] = st.g.get('rel', ()) + ((c.name, self.eng.norm(st, c.args[0])),)

    def on_return(self, st, v, fn):
        eng = self.eng
        rel = st.g.get('rel', ())
        bad = lambda m: eng.report(st, 'sub-objects', fn, None, m)
        for n, w in self.want.items():
            self.ob += 1
            k = sum(1 for name, p in rel if not name.endswith('.destroy') and eng.prove_eq(st, p, w))
            if k > 1:
                bad('%s is released %d times' % (n, k))
            elif not k and eng.decide(st, Pred('eq', w)) is not True:
                bad('%s may not be released with its object' % n)
        self.ob += 1
        if sum(1 for name, p in rel if not name.endswith('.destroy') and eng.prove_eq(st, p, self.p)) != 1:
            bad('the object itself is not released exactly once')
        elif rel[-1][1] != eng.norm(st, self.p):
            bad('something is released after the object itself')
        if self.dslot is not None:
            k = sum(1 for name, p in rel if name.endswith('.destroy') and eng.prove_eq(st, p, self.p))
            if k > 1 or not k and eng.decide(st, Pred('eq', self.dslot)) is not True:
                bad('the destructor of the backend is not called exactly once')


# ---- keys ------------------------------------------------------------------------------------
class Clear:
    """what: 'clear', 'public' (success leaves a public key only) or 'set' (failure after the backend was called)"""

    def __init__(self, fn, struct, what, lens):
        self.fn, self.struct, self.what, self.lens = fn, struct, what, lens
        self.ob = self.seen = 0

    def setup(self, eng, st, args):
        self.p = args[0]
        s = self.struct
        eng.add_ne(st, self.p)
        for n, k in zip(('private_key', 'public_key'), self.lens):
            sf(eng, st, self.p, s, n + '_len', K(k))
        self.key = {n: (ef(eng, self.p, s, n), K(k)) for n, k in zip(('private_key', 'public_key'), self.lens)}
        for a, _ in self.key.values():
            eng.add_ne(st, a)
        return st

    def on_call(self, st, c):
        if c.name.startswith('slot:') and c.name.endswith(('set_keypair', 'set_keypair_private', 'validate_keypair', 'validate_public_key', 'derive_public_key')):
            st.g['slot'] = True
        if c.name in ('noise_clean',):
            self.zero(st, *self.eng.base(self.eng.norm(st, c.args[0])), n=c.args[1])

    def zero(self, st, b, off, n):
        eng = self.eng
        for name, (p, ln) in self.key.items():
            pb, po = eng.base(p)
            if b != pb or po != ZERO:
                continue
            if not isconst(off) or not isconst(eng.norm(st, n)):
                continue
            have = st.g.get('zb', frozenset()) | {(name, i) for i in range(off[0], min(off[0] + eng.norm(st, n)[0], ln[0]))}
            if sum(1 for x in have if x[0] == name) == ln[0]:
                st.g['z'] = st.g.get('z', frozenset()) | {name}
            st.g['zb'] = have

    def dirty(self, st, b):
        for name, (p, ln) in self.key.items():
            if b == self.eng.base(p)[0]:
                if name in st.g.get('z', ()):
                    st.g['z'] = st.g['z'] - {name}
                st.g['zb'] = frozenset(x for x in st.g.get('zb', ()) if x[0] != name)

    def on_fill(self, st, b, off, val, n):
        self.dirty(st, b)
        if isinstance(val, tuple) and self.eng.norm(st, val) == ZERO:
            self.zero(st, b, off, n)

    def on_copy(self, st, db, doff, sb, soff, n):
        self.dirty(st, db)

    def on_clobber(self, st, b, off, n, why):
        self.dirty(st, b)

    def on_store(self, st, b, off, size, val, inst, fn):
        if inst is None or inst.op != 'store':
            return
        if isinstance(val, tuple) and self.eng.norm(st, val) == ZERO:
            self.zero(st, b, off, K(size))
        else:
            self.dirty(st, b)

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            if ok == (self.what == 'set') or not ok and not s.g.get('slot'):
                continue
            self.ob += 1
            self.seen += 1
            kt = gf(eng, s, self.p, self.struct, 'key_type')
            z = s.g.get('z', frozenset())
            bad = lambda m: eng.report(s, 'clear-key', fn, None, m)
            if 'private_key' not in z:
                bad('the bytes of the private key are not all zeroed')
            if self.what == 'clear' and 'public_key' not in z:
                bad('the bytes of the public key are not all zeroed')
            want = 'NOISE_KEY_TYPE_PUBLIC' if self.what == 'public' else 'NOISE_KEY_TYPE_NO_KEY'
            if not eng.prove_eq(s, kt, K(const(want))):
                bad('the key type recorded is not %s' % want)


KEYS = [('noise_dhstate_clear_key', DH, 'clear'), ('noise_signstate_clear_key', SG, 'clear'), ('noise_dhstate_set_public_key', DH, 'public'),
        ('noise_signstate_set_public_key', SG, 'public'), ('noise_dhstate_set_null_public_key', DH, 'public'),
        ('noise_dhstate_set_keypair', DH, 'set'), ('noise_dhstate_set_keypair_private', DH, 'set'), ('noise_signstate_set_keypair_private', SG, 'set')]


def job(item):
    lib, kind, f, a = item
    res = Result()
    if kind == 'helper':
        for n in a:
            for null in (False, True):
                cl = Helper(f, n, null)
                e = lib.engine([cl], inline=[f.name, 'noise_clean'])
                for m in (f.name, 'noise_clean'):
                    e.models.pop(m, None)
                e.run(f, cl.setup)
                r = engine_result(e, lambda rep: f.name, lib.prog.config)
                r.count('obligations', cl.ob)
                r.count('helper_sizes')
                res.merge(r)
        return res
    if kind == 'new':
        cl = NewObject(f)
        e = lib.engine([cl], inline=[f.name])
        e.models.pop(f.name, None)
    elif kind == 'rel':
        pt = f.module.param_types(f)
        runs = [None]
        if f.name in GROW:
            runs = [0, 1, 4]
        for g in runs:
            cl = Release(f, pt, g)
            e = lib.engine([cl], inline=[f.name], override={'noise_new_object': new_model})
            if f.name.endswith('_free'):
                e.models.pop(f.name, None)
            e.run(f, cl.setup)
            r = engine_result(e, lambda rep: '%s/%s' % (f.name, rep.where), lib.prog.config)
            r.count('obligations', cl.ob)
            res.merge(r)
        res.count('functions')
        res.sites = cl.sites
        return res
    elif kind == 'destroy':
        struct, owned, lists, slot, count = a
        cl = Destroy(f, struct, owned, lists, slot, count)
        e = lib.engine([cl], inline=[f.name])
        e.models.pop(f.name, None)
    else:
        cl = Clear(f, *a)
        e = lib.engine([cl], inline=['noise_dhstate_clear_key', 'noise_signstate_clear_key', f.name])
        for m in ('noise_dhstate_clear_key', 'noise_signstate_clear_key', f.name):
            e.models.pop(m, None)
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    if kind == 'key' and not cl.seen and not r.viol:
        raise Broken('%s has no path to judge' % f.name)
    r.count('obligations', cl.ob)
    if kind == 'key' and a[2] == (32, 32):
        r.count('key_functions')
    return r


def check(ctx):
    items = []
    for cfg in ('ref', 'sodium', 'openssl'):
        lib = ctx.lib(cfg)
        slot = {t.name for fs in slots.slot_functions(lib).values() for t, _ in fs}
        for f in lib.prog.functions():
            src = f.module.loc(f.dbg)[0] if f.dbg else f.module.name
            if not any(s in '/' + src for s in ('/src/protocol/', '/src/backend/', '/src/keys/', '/src/protobufs/')):
                continue
            if f.internal and f.name not in slot or f.name in HELPERS:
                continue
            if cfg != 'ref' and 'backend/%s' % cfg not in f.module.name and 'randstate' not in f.module.name:
                continue
            items.append((lib, 'rel', f, None))
    lib = ctx.lib('ref')
    fi = lib.prog.fieldinfo
    for n in HELPERS:
        f = ctx.fn(lib, n)
        for i in range(4):
            items.append((lib, 'helper', f, list(range(i, 40, 4)) + [(64, 256, 257, 128)[i]]))
    items.append((lib, 'new', ctx.fn(lib, 'noise_new_object'), None))
    for s in STATES:
        n = 'noise_%s_free' % s[5:-2].lower()
        f = ctx.fn(lib, n)
        if s not in fi:
            raise Broken('anchor vanished: structure %s' % s)
        owned = OWNED.get(s, [])
        ptrs = [x for x, v in fi[s].items() if v[2]]
        items.append((lib, 'destroy', f, (s, owned, [], 'destroy' in fi[s], 0)))
        ctx.count('destructors')
        ctx.count('owned_fields', len(owned))
        if s in (HS, SS):
            for x in ptrs:
                if x not in owned and x != 'tokens':
                    ctx.violation('sub-objects', n, x, 'field %s of %s is not known to the rule' % (x, s))
    for s in sorted(fi):
        if not s.startswith('_Noise_'):
            continue
        f = ctx.fn(lib, s[1:] + '_free')
        ptrs = [x for x, v in fi[s].items() if v[2]]
        lists = [x for x in ptrs if x + '_count_' in fi[s]]
        for k in ((0, 1, 2, 3) if lists else (0,)):
            items.append((lib, 'destroy', f, (s, ptrs, lists, False, k)))
        ctx.count('destructors')
        ctx.count('owned_fields', len(ptrs))
    for n, s, w in KEYS:
        for lens in ((32, 32), (56, 32), (32, 56), (64, 128)):
            items.append((lib, 'key', ctx.fn(lib, n), (s, w, lens)))
    items.sort(key=lambda j: -len(j[2].order))
    rs = ctx.pmap(job, items)
    sites = set()
    for r in rs:
        sites |= getattr(r, 'sites', set())
    ctx.count('release_sites', len(sites))
