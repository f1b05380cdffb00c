"""C13: every allocation has exactly one owner on every path, whatever fails."""
from ..absint import *
from .. import clients, errcodes
from ..libmodels import gf
from ..run import Result, engine_result, V, Broken

RULES = [
    'leak: at every return every object allocated on the path has been freed or is reachable from the result, the caller\'s memory or a global',
    'double-free: no object is freed twice, freed while it is embedded in another, or freed although it never was an allocation',
    'use-after-free: nothing is read, written or passed on after it was freed',
    'dangling: at every return nothing reachable from the caller refers to an object freed on the path',
    'single-owner: no allocated object is held by two owners at a successful return',
    'null-on-error: a function that creates an object through an output pointer leaves null there whenever it returns an error',
    'no-false-success: a function that creates an object through an output pointer returns success only with an object there, or a null its caller asked not to have',
]
EXPLANATION = 'ownership typestate over every path of every function of the library, each allocation and each error-returning call forking into success and failure'
MIN = {"functions": 300, "allocation_events": 200, "obligations": 12000, "creators": 17}
ASSUMPTIONS = ['distinct pointers found in the caller\'s objects point to distinct objects']
# functions whose output pointer is documented to survive an error
KEEP_ON_ERROR = set()


class Own(clients.ErrFork):
    owning = ()
    tomb = None

    def __init__(self, fn, outs=(), nulls=(), destroys=False, outs0=()):
        super().__init__()
        self.outs0 = outs0
        self.fn, self.outs, self.nulls, self.destroys = fn, outs, nulls, destroys
        self.ob = self.allocs = 0
        self.codes = errcodes.constants('NOISE_ERROR_')
        self.sites = set()
        self.canon = {}
        self.before = set()

    def bad(self, st, rule, m, c=None):
        self.eng.report(st, rule, c.fn if c else self.fn, c.inst if c else None, m)

    def on_call_done(self, st, c, ret):
        if self.isev(c) and not st.g.get('ev'):
            st.g['ev'] = True
        return super().on_call_done(st, c, ret)

    # ghost own: tuple of (id, status, name)
    def get(self, st):
        return dict((i, s) for i, s in st.g.get('own', ()))

    def put(self, st, d):
        st.g['own'] = tuple(sorted(d.items(), key=str))

    def name(self, b):
        return self.eng.syms[b].name

    def on_alloc(self, st, b, c):
        d = self.get(st)
        d[b] = 'live'
        self.put(st, d)
        self.allocs += 1
        self.sites.add(self.eng.where(c.fn, c.inst))

    def on_free(self, st, p, c):
        eng = self.eng
        p = eng.norm(st, p)
        if isconst(p):
            if p[0]:
                self.bad(st, 'double-free', 'a constant address is freed', c)
            return
        b, off = eng.base(p)
        if b is None:
            return
        y = eng.syms[b]
        d = self.get(st)
        if y.rkind in ('alloca', 'global', 'fn'):
            self.bad(st, 'double-free', '%s is freed but was never allocated' % y.name, c)
            return
        if not (isconst(off) and off[0] == 0):
            if isconst(off):
                self.bad(st, 'double-free', 'a pointer into the middle of %s is freed' % y.name, c)
            return
        if d.get(b) == 'freed':
            self.bad(st, 'double-free', '%s is freed twice' % y.name, c)
            return
        if b in d or self.stable(y):
            d[b] = 'freed'
            if c.name != 'noise_free' and c.name != 'free' and c.name != 'realloc' and c.name in eng.contract | set(eng.models):
                # an object's own destructor also releases what it owns (rule C12)
                for q in self.children(st, b, d):
                    d[q] = 'freed'
            self.put(st, d)
        else:
            st.g['fr'] = st.g.get('fr', frozenset()) | {b}

    def stable(self, y):
        o = y.origin
        while o is not None and o[0] == 'lazy':
            if isinstance(o[1], int):
                y = self.eng.syms[o[1]]
                o = y.origin
            else:
                return False
        return o is not None and o[0] == 'param'

    def cells(self, st):
        for b, r in st.mem.items():
            for (o, sz), v in r.cells.items():
                if sz == 8 and isinstance(v, tuple):
                    v = self.eng.norm(st, v)
                    if v[1]:
                        t, off = self.eng.base(v)
                        if t is not None:
                            yield b, o, t, off

    def children(self, st, b, d):
        seen, todo = set(), [b]
        edges = list(self.cells(st))
        while todo:
            x = todo.pop()
            for a, o, t, off in edges:
                if a == x and t in d and d[t] == 'live' and t not in seen and t != b:
                    seen.add(t)
                    todo.append(t)
        return seen

    def use(self, st, b, inst, fn, how):
        d = st.g.get('own')
        if d and any(i == b and s == 'freed' for i, s in d):
            self.eng.report(st, 'use-after-free', fn, inst, '%s is %s after it was freed' % (self.name(b), how))

    def on_load(self, st, b, off, size, v, inst, fn):
        self.use(st, b, inst, fn, 'read')

    def on_store(self, st, b, off, size, val, inst, fn):
        self.use(st, b, inst, fn, 'written')
        if size == 8 and b is not None and isconst(off) and self.eng.fieldof.get((b, off[0])) in self.owning:
            self.overwrite(st, b, off, val, inst, fn)

    def overwrite(self, st, b, off, val, inst, fn):
        eng = self.eng
        old = eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))
        if eng.decide(st, Pred('eq', old)) is True:
            return
        t, toff = eng.base(old)
        if t is None or (isinstance(val, tuple) and eng.prove_eq(st, val, old)):
            return
        self.ob += 1
        d = self.get(st)
        if d.get(t) == 'freed' or t in st.g.get('fr', ()) or d.get(t) == 'live':
            return
        if any(x == t and (a, o) != (b, off[0]) for a, o, x, _ in self.cells(st)):
            return
        if eng.syms[t].rkind in ('alloca', 'global', 'fn'):
            return
        st.g['lost'] = st.g.get('lost', frozenset()) | {(t, eng.lazyname(b, off[0]), fn.name if fn else '', eng.where(fn, inst) if inst is not None else '')}

    def on_call(self, st, c):
        if not st.g.get('own'):
            return
        for a in c.args:
            if isinstance(a, tuple):
                b = self.eng.base(self.eng.norm(st, a))[0]
                if b is not None and not self.frees(c):
                    self.use(st, b, c.inst, c.fn, 'passed to %s' % c.name)

    def frees(self, c):
        return c.name == 'free' or c.name.endswith('_free') or c.name in ('noise_free', 'realloc', 'noise_protobuf_free_memory')

    def on_return(self, st, v, fn):
        eng = self.eng
        if isinstance(v, Pred) or v is None or fn.rettype[0] != 'int' or not clients.is_err_fn(fn.name, fn.rettype):
            self.at_exit(st, v, fn, None)
            return
        for s, ok in eng.split(st, Pred('eq', v)):
            self.at_exit(s, v, fn, ok)

    def at_exit(self, st, v, fn, ok):
        eng = self.eng
        self.ob += 1
        d = self.get(st)
        edges = list(self.cells(st))
        live = [b for b, s in d.items() if s == 'live']
        freed = [b for b, s in d.items() if s == 'freed']
        if live:
            reach = set()
            todo = []
            if isinstance(v, tuple) and fn.rettype[0] == 'ptr':
                t = eng.base(eng.norm(st, v))[0]
                if t is not None:
                    reach.add(t)
                    todo.append(t)
            holders = {}
            for a, o, t, off in edges:
                y = eng.syms[a]
                if a == t:
                    continue
                if y.rkind != 'alloca' and isconst(off) and off[0] == 0:
                    holders.setdefault(t, set()).add((a, o))
                if a not in d and y.rkind != 'alloca' and t not in reach:
                    reach.add(t)
                    todo.append(t)
            while todo:
                x = todo.pop()
                for a, o, t, off in edges:
                    if a == x and t not in reach:
                        reach.add(t)
                        todo.append(t)
            esc = st.g.get('esc', ())
            for b in live:
                if b not in reach and b not in esc:
                    # may be null after all
                    self.bad(st, 'leak', '%s%s is leaked' % (self.name(b).split('#')[0], '' if ok is None else ' when the call returns %s' % ('success' if ok else 'an error')))
                elif (ok is True or ok is None) and 'get_new' not in fn.name:
                    h = [x for x in holders.get(b, ()) if x[0] not in freed and (x[0] not in d or x[0] in reach)]
                    if len(h) > 1:
                        self.bad(st, 'single-owner', '%s is held in two places (%s)' % (self.name(b).split('#')[0], ', '.join(sorted(eng.lazyname(a, o) if isinstance(o, int) else self.name(a) for a, o in h))))
        if ok is not False and 'get_new' not in fn.name:
            held = {}
            for a, o, t, off in edges:
                if isconst(off) and off[0] == 0 and eng.syms[a].rkind != 'alloca' and (eng.fieldof.get((a, o)) in self.owning or any(eng.base(self.args[i])[0] == a for i in self.outs0)):
                    held.setdefault(t, set()).add((a, o))
            for t, h in held.items():
                y = eng.syms[t]
                o = y.origin
                if o and o[0] == 'lazy' and (o[1], o[2]) in h and len(h) > 1 and d.get(t) != 'freed' and self.stable(y):
                    self.ob += 1
                    self.bad(st, 'single-owner', '%s is held in two places (%s)' % (y.name, ', '.join(sorted(eng.lazyname(a, x) if isinstance(x, int) else self.name(a) for a, x in h))))
        for t, nm, f2, w in st.g.get('lost', ()):
            if d.get(t) == 'freed' or t in st.g.get('fr', ()) or any(x == t for _, _, x, _ in edges) or eng.decide(st, Pred('eq', (0, ((t, 1),)))) is True:
                continue
            if isinstance(v, tuple) and eng.base(eng.norm(st, v))[0] == t:
                continue
            self.bad(st, 'leak', 'what %s held is neither freed nor kept when it is overwritten%s' % (nm, ' in %s' % f2 if f2 != fn.name else ''))
        for b in freed:
            if self.destroys:
                break           # the container itself is being released by the caller
            y = eng.syms[b]
            o = y.origin
            if o is not None and o[0] == 'lazy' and o[1] not in freed:
                cur = eng.norm(st, eng.load_cell(st, o[1], K(o[2]), 8, True, 64, None))
                if eng.base(cur)[0] == b and not self.gone(st, o[1], freed):
                    self.bad(st, 'dangling', '%s still refers to freed memory' % y.name)
                    continue
            for a, off, t, toff in edges:
                if t == b and a not in freed and eng.syms[a].rkind != 'alloca' and not (a in d and d[a] == 'live' and a not in (reach if live else ())) and not self.gone(st, a, freed):
                    if o is not None and o[0] == 'lazy' and a == o[1] and off == o[2]:
                        continue
                    self.bad(st, 'dangling', '%s still refers to the freed %s' % (eng.lazyname(a, off) if isinstance(off, int) else self.name(a), y.name.split('#')[0]))
                    break
        if ok is False and eng.prove_eq(st, v, K(self.codes['NOISE_ERROR_INVALID_STATE'])) and not st.g.get('ev'):
            return          # refused before anything was attempted: the outputs may belong to an earlier success
        if ok is False and any(t[0] == 'ptr' and eng.decide(st, Pred('eq', a)) is True for k, (a, (t, _)) in enumerate(zip(self.args, fn.params)) if k not in self.nulls):
            return          # misuse: rule C14
        for i in self.outs:
            b, off = eng.base(self.args[i])
            cur = eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))
            z = eng.decide(st, Pred('eq', cur))
            self.ob += 1
            if ok is False and z is not True:
                self.bad(st, 'null-on-error', 'an error is returned but %s may not be null' % self.fn.params[i][1])
            if ok is True and z is not False:
                self.bad(st, 'no-false-success', 'success is returned but %s may be null' % self.fn.params[i][1])

    def gone(self, st, b, freed):
        """is the container itself released on this path"""
        while True:
            if b in freed:
                return True
            o = self.eng.syms[b].origin
            if o is None or o[0] != 'lazy':
                return False
            b = o[1]

    def on_loop_header(self, st, fn, H):
        self.before.update(b for b, _ in st.g.get('own', ()))

    def on_back_edge(self, st, fn, H):
        """after an iteration: what was freed and is referred to by nothing is of no further interest, nor are freed array elements;
        what a field of another object holds belongs to that object"""
        eng = self.eng
        d = self.get(st)
        if d:
            cs = list(self.cells(st))
            refs = {t for _, _, t, _ in cs}
            held = {t for a, o, t, off in cs if a != t and eng.syms[a].rkind != 'alloca' and (a, o) in eng.fieldof and isconst(off) and off[0] == 0}
            keep = {}
            for b, s in d.items():
                o = eng.syms[b].origin or ('',)
                if s == 'freed' and b != self.tomb and o[0] != 'lazy' and b in refs and all(eng.syms[a].rkind == 'alloca' for a, _, t, _ in cs if t == b):
                    # only local variables still refer to it: one name stands for all such objects
                    if self.tomb is None:
                        y = eng.newsym(None, 'an object freed in an earlier iteration', 'ptr', 64, 1, U64, origin=('heap', 'tomb'))
                        y.rkind, y.nonnull, self.tomb = 'heap', True, y.id
                    for a in list(st.mem):
                        for k, v in list(st.mem[a].cells.items()):
                            if k[1] == 8 and isinstance(v, tuple) and eng.base(eng.norm(st, v))[0] == b:
                                eng.region(st, a, True).cells[k] = (0, ((self.tomb, 1),))
                    for k, v in list(st.env.items()):
                        if isinstance(v, tuple) and eng.base(v)[0] == b:
                            st.env[k] = lsubst(v, {b: (0, ((self.tomb, 1),))})
                    st.mem.setdefault(self.tomb, Region())
                    keep[self.tomb] = 'freed'
                    continue
                if s == 'freed' and (o[0] == 'lazy' and (o[1], o[2]) not in eng.fieldof or o[0] != 'lazy' and b not in refs):
                    continue
                if s == 'live' and b not in refs and b not in st.g.get('esc', ()) and not any(isinstance(st.env.get(i.res), tuple) and eng.base(st.env[i.res])[0] == b for i in fn.blocks[H].insts if i.op == 'phi'):
                    self.bad(st, 'leak', '%s is lost in an iteration of a loop of %s' % (self.name(b).split('#')[0], fn.name))
                    continue
                if s == 'live' and (b in held or b in st.g.get('esc', ())):
                    continue
                keep[b] = s
            for b in [b for b, s in keep.items() if s == 'live' and b not in self.before]:
                at = [(a, o) for a, o, t, off in cs if t == b]
                out = [x for x in at if eng.syms[x[0]].rkind != 'alloca']
                if len(out) == 1 and out[0][0] != b:
                    # the same name for the object held there, whichever iteration created it
                    if out[0] not in self.canon:
                        y = eng.newsym(None, 'the object kept in %s' % (eng.lazyname(*out[0]) if isinstance(out[0][1], int) else self.name(out[0][0])), 'ptr', 64, 1, U64, origin=('heap', 'kept'))
                        y.rkind, y.nonnull, self.canon[out[0]] = 'heap', True, y.id
                        eng.stablesyms.add(y.id)
                    n = self.canon[out[0]]
                    if n in keep or any(t == n for _, _, t, _ in cs):
                        continue
                    for a in list(st.mem):
                        for k, v in list(st.mem[a].cells.items()):
                            if k[1] == 8 and isinstance(v, tuple) and eng.base(eng.norm(st, v))[0] == b:
                                eng.region(st, a, True).cells[k] = (0, ((n, 1),))
                    for k, v in list(st.env.items()):
                        if isinstance(v, tuple) and eng.base(v)[0] == b:
                            st.env[k] = lsubst(v, {b: (0, ((n, 1),))})
                    st.mem[n] = Region()
                    keep[n] = keep.pop(b)
            if keep != d:
                self.put(st, keep)
        for k in ('esc', 'fr'):
            st.g.pop(k, None)

    def on_escape(self, st, val, c):
        if isinstance(val, tuple):
            b = self.eng.base(self.eng.norm(st, val))[0]
            if b is not None:
                st.g['esc'] = tuple(set(st.g.get('esc', ())) | {b})

    def setup(self, eng, st, args):
        self.args = args
        for i in self.outs:
            eng.add_ne(st, args[i])
        for i in self.nulls:
            eng.add_eq(st, args[i])
        return st


def outputs(lib, f):
    """indices of parameters through which f hands out an object"""
    pt = f.module.param_types(f)
    out = []
    if pt is None:
        return out
    for i, (t, depth, const) in enumerate(pt[1:]):
        if depth == 2 and not const and (t or '').lower().startswith('noise'):
            out.append(i)
    return out


def job(item):
    lib, f, outs, nulls, destroys = item
    c = Own(f, outs, nulls, destroys, outputs(lib, f) if not f.internal else ())
    c.owning = lib._owning
    e = lib.engine([c])
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s:%s %s' % (f.module.name.split('/')[-1], f.name, rep.rule), lib.prog.config)
    r.count('functions')
    r.count('allocation_events', len(c.sites))
    r.count('obligations', c.ob)
    if outs:
        r.count('creators')
    return r


class Frees(clients.ErrFork):
    """fields whose value a destructor frees"""

    def __init__(self):
        super().__init__()
        self.fields = set()

    def on_free(self, st, p, c):
        eng = self.eng
        b, off = eng.base(eng.norm(st, p))
        if b is None:
            return
        o = eng.syms[b].origin
        if o is not None and o[0] == 'lazy' and isconst(off) and off[0] == 0:
            f = eng.fieldof.get((o[1], o[2]))
            if f:
                self.fields.add(f)


def owning_fields(lib):
    """(struct, field) pairs that the object's own destructor releases"""
    out = set()
    for f, sl in entries(lib):
        if not f.internal and f.name.endswith('_free') and len(f.params) == 1 or 'destroy' in sl:
            c = Frees()
            e = lib.engine([c], inline=[f.name])
            e.run(f)
            out |= c.fields
    return out


def touches(lib, f, seen=None):
    """can f reach a call that is more than arithmetic?  (the bodies of static functions belong to their callers)"""
    seen = set() if seen is None else seen
    if id(f) in seen:
        return False
    seen.add(id(f))
    for b in f.order:
        for i in b.insts:
            if i.op != 'call':
                continue
            t = i.a[0]
            if t[0] != 'g':
                return True
            if t[1].startswith('llvm.'):
                continue
            g = lib.prog.resolve(f.module, t[1])
            if g is None or not g.internal:
                if g is None and t[1] in ('memcpy', 'memset', 'memmove', 'memcmp'):
                    continue
                return True
            if touches(lib, g, seen):
                return True
    return False


def entries(lib):
    """public functions and the functions installed in the object tables"""
    from .. import slots
    sl = {}
    for k, l in slots.slot_functions(lib).items():
        for f, _ in l:
            sl.setdefault(id(f), set()).add(k.split('.')[1])
    for f in lib.prog.functions():
        if (not f.internal or id(f) in sl) and touches(lib, f):
            yield f, sl.get(id(f), set())


def check(ctx):
    jobs = []
    for cfg in ('ref', 'sodium', 'openssl'):
        lib = ctx.lib(cfg)
        lib._owning = owning_fields(lib)
        ctx.count('owning_fields', len(lib._owning))
        for f, sl in entries(lib):
            if cfg != 'ref' and 'backend/%s' % cfg not in f.module.name:
                continue
            jobs.append((lib, f, (), (), 'destroy' in sl))
            outs = outputs(lib, f) if not f.internal else []
            if 'get_new' in f.name:
                outs = []       # hands out a reference to a part of its object
            if outs:
                jobs.append((lib, f, outs, (), False))
            if len(outs) > 1:
                for i in outs:
                    jobs.append((lib, f, [i], [o for o in outs if o != i], False))
    jobs.sort(key=lambda j: -len(j[1].order))
    ctx.pmap(job, jobs)
