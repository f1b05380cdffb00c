"""Flow of secret bytes through the compiled program: which branches, table indices, divisions and comparisons depend on them.

A flow-insensitive, field-sensitive taint analysis over the SSA form.  Bytes reached through byte or word pointers given
to a function, arrays inside library objects and the byte blocks they point to are secret; scalar fields are not.  What
functions do to each other's memory and arguments is summarised and iterated to a fixed point over the whole program.
"""
import re

VERDICT = {'noise_is_equal', 'crypto_verify_16', 'crypto_verify_32', 'sodium_memcmp', 'CRYPTO_memcmp',
           'noise_is_equal_ct'}
COMPARE = {'memcmp', 'bcmp', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memchr', 'strchr', 'memmem', 'strstr', 'strlen', 'strcoll', 'memrchr'}
COPY = {'memcpy', 'memmove', 'strcpy', 'strncpy', '__memcpy_chk', '__memmove_chk'}
DIV = {'udiv', 'sdiv', 'urem', 'srem'}
MEMINTR = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset')
SCALAR = re.compile(r'^(__)?(size_t|int|ssize_t|unsigned int|bool|_Bool|double|float|char|FILE|_IO_FILE)$')


def isint(t):
    return t[0] == 'int'


class Fn:
    """what is known about one function"""

    def __init__(self, f):
        self.f = f
        self.args = set()           # by-value parameters that may be secret
        self.ret = False
        self.retlocs = set()
        self.writes = set()         # locations of the caller this function may leave secrets in: ('p', i) roots
        self.val = {}
        self.loc = {}
        self.mem = set()
        self.sinks = {}


class Taint:
    def __init__(self, prog, entries=(), skip=(), public=(), publicbytes=(), hidden=()):
        """entries: names of functions callers outside the program use; public: names of fields whose blocks are no secrets;
        publicbytes: (structure, from, to) of array parts that are none; hidden: where even the outcome of a null-key test is secret"""
        self.publicbytes = {}
        for sn, a, z in publicbytes:
            self.publicbytes[sn] = self.publicbytes.get(sn, set()) | set(range(a, z))
        self.prog = prog
        self.public = set(public)
        self.fns = {}
        self.skip = set(skip)
        for f in prog.functions():
            if f.order and f.name not in self.skip:
                self.fns[(f.module.name, f.name)] = Fn(f)
        self.gmem = set()           # globals holding secrets
        self.publicoffs = {}
        for sn, fs in prog.fieldinfo.items():
            for n, fi in fs.items():
                if n in self.public:
                    self.publicoffs.setdefault(sn, set()).add(fi[0])
        self.entry = set()
        called, taken = set(), set()
        for F in self.fns.values():
            for b in F.f.order:
                for i in b.insts:
                    if i.op == 'call' and i.a[0][0] == 'g':
                        G = self.of(F.f.module, i.a[0][1])
                        if G is not None:
                            called.add(G)
        for F in self.fns.values():
            if F not in called or F.f.name in entries:
                self.entry.add(F)
        for f in self.taken():
            if f in self.fns:
                self.entry.add(self.fns[f])
        for F in self.fns.values():
            self.types(F)
        self.hidden = self.within(hidden)

    def within(self, names):
        """these functions and those that only they use"""
        calls = {}
        for F in self.fns.values():
            for b in F.f.order:
                for i in b.insts:
                    if i.op == 'call' and i.a[0][0] == 'g':
                        G = self.of(F.f.module, i.a[0][1])
                        if G is not None:
                            calls.setdefault(G, set()).add(F)
        out = {F for F in self.fns.values() if F.f.name in names}
        ch = True
        while ch:
            ch = False
            for G, cs in calls.items():
                if G not in out and G not in self.entry and cs <= out | {G}:
                    out.add(G)
                    ch = True
        return out

    def taken(self):
        """functions whose address is stored or passed"""
        out = set()

        def walk(m, v):
            if isinstance(v, (tuple, list)):
                if len(v) >= 2 and v[0] == 'g' and isinstance(v[1], str):
                    g = self.prog.resolve(m, v[1])
                    if g is not None:
                        out.add((g.module.name, g.name))
                    return
                for x in v:
                    walk(m, x)
        for F in self.fns.values():
            for b in F.f.order:
                for i in b.insts:
                    walk(F.f.module, i.a[1] if i.op == 'call' else i.a)
        for m in self.prog.modules:
            for g in m.globals.values():
                walk(m, g.init)
        return out

    def types(self, F):
        """what the debug information says the parameters point to"""
        m = F.f.module
        pt = m.param_types(F.f)[1:]
        F.ptype = {}
        for i, (t, nm) in enumerate(F.f.params):
            if t[0] != 'ptr' or i >= len(pt):
                continue
            n, depth, cst = pt[i]
            st = m.structs.get('struct.' + (n or ''))
            if depth == 1 and st is not None:
                F.ptype[i] = ('struct', 'struct.' + n)
            elif depth == 1 and n and not SCALAR.match(n):
                F.ptype[i] = 'bytes'
            else:
                F.ptype[i] = 'public'
        F.rtype = {}
        F.secp = set()

    def leaf(self, F, t, o):
        """is offset o of a structure in an array of integers"""
        m = F.f.module
        if o is None:
            return self.hasarray(m, t)
        inarr = False
        for _ in range(32):
            b = m.body(t)
            if b is None:
                return False
            if b[0] == 'lit':
                sn = t[1] if t[0] == 'struct' else ''
                sn = sn.replace('struct.', '')
                if o in self.publicoffs.get(sn, ()) or o in self.publicbytes.get(sn, ()):
                    return False
                offs = m.layout(t)[0]
                k = max((k for k in range(len(offs)) if offs[k] <= o), default=None)
                if k is None:
                    return False
                o -= offs[k]
                t = b[2][k]
            elif b[0] in ('arr', 'vec'):
                inarr = True
                sz = m.sizeof(b[2])
                if not sz:
                    return False
                o %= sz
                t = b[2]
            else:
                return inarr and b[0] == 'int'
        return False

    def hasarray(self, m, t, inarr=False):
        b = m.body(t)
        if b is None:
            return False
        if b[0] == 'lit':
            return any(self.hasarray(m, x, inarr) for x in b[2])
        if b[0] in ('arr', 'vec'):
            return self.hasarray(m, b[2], True)
        return inarr and b[0] == 'int'

    def of(self, mod, name):
        g = self.prog.resolve(mod, name)
        return self.fns.get((g.module.name, g.name)) if g is not None else None

    # ---- locations: (root, offset or None)
    def gep(self, m, st, idx, off):
        """(new offset or None, struct field path known)"""
        t = st
        first = True
        o = off
        for it, v in idx:
            c = v[1] if v[0] == 'c' else None
            if first:
                first = False
                if c is None:
                    o = None
                elif o is not None:
                    o += c * m.sizeof(t)
                continue
            b = m.body(t)
            if b[0] in ('struct', 'lit') and c is not None:
                offs = m.layout(t)
                offs = offs[0] if isinstance(offs, tuple) and isinstance(offs[0], (list, tuple)) else offs
                if o is not None:
                    o += offs[c]
                t = b[2][c]
            else:
                t = b[2] if b[0] != 'vec' else b[2]
                if c is None:
                    o = None
                elif o is not None:
                    o += c * m.sizeof(t)
        return o

    def locs(self, F, v):
        if v[0] == 'l':
            return F.loc.get(v[1], ())
        if v[0] == 'g':
            return {(('g', v[1]), 0)}
        if v[0] == 'gep':
            return {(r, None) for r, o in self.locs(F, v[2])}
        if v[0] == 'cast':
            return self.locs(F, v[3])
        return ()

    def tainted(self, F, v):
        if v[0] == 'l':
            return F.val.get(v[1], False)
        return False

    def memget(self, F, locs, size):
        """may a load of size bytes at these locations be secret"""
        for r, o in locs:
            if self.policy(F, r, o):
                return True
            ms = self.gmem if r[0] == 'g' else F.mem
            if (r, o) in ms or o is None and any(q == r for q, _ in ms):
                return True
            if (r, None) in ms and not self.scalar(F, r, o):
                return True
            if o is not None and any((r, o + d) in ms for d in range(1 - 16, size)):
                if not self.scalar(F, r, o):
                    return True
        return False

    def scalar(self, F, r, o):
        """is this a scalar member of a structure"""
        if o is None:
            return False
        m = F.f.module
        return any(m.sizeof(t) > o and not self.leaf(F, t, o) for t in self.rts(F, r))

    def rts(self, F, r):
        """the structures a location is used as"""
        t = F.rtype.get(r, set())
        if r[0] == 'p' and isinstance(F.ptype.get(r[1]), tuple):
            return t | {F.ptype[r[1]]}
        return t

    def policy(self, F, r, o):
        if r[0] not in 'p*':
            return False
        ts = self.rts(F, r)
        if r[0] == 'p':
            if F.ptype.get(r[1]) == 'public':
                return False
            if not ts:
                return F in self.entry or r[1] in F.secp
        else:
            # a block some object points to
            root, off = r[1]
            if not ts:
                rt = self.rts(F, root)
                if not rt:
                    return False
                return not any(off in self.publicoffs.get(t[1].replace('struct.', ''), ()) for t in rt)
        # a structure of the library: arrays in it are secret
        return any(self.leaf(F, t, o) for t in ts if o is None or F.f.module.sizeof(t) > o) and not self.scalar(F, r, o)

    def retype(self, F, r, t):
        """note what a location is used as"""
        if t[0] != 'struct' or F.f.module.body(t) is None:
            return False
        u = F.rtype.setdefault(r, set())
        if t not in u:
            u.add(t)
            return True
        return False

    def run(self):
        work = True
        n = 0
        while work and n < 30:
            work = False
            n += 1
            for F in self.fns.values():
                if self.step(F):
                    work = True
        for F in self.fns.values():
            self.collect(F)
        return self

    def step(self, F):
        """one pass over a function until nothing changes; True if what others see changed"""
        f = F.f
        m = f.module
        before = (len(F.writes), F.ret, len(F.retlocs), len(self.gmem))
        out = False
        f.analyze()
        acc = self.accumulators(F)
        for i, (t, nm) in enumerate(f.params):
            if t[0] == 'ptr':
                F.loc.setdefault(nm, set()).add((('p', i), 0))
            elif i in F.args:
                F.val[nm] = True
        ch = True
        while ch:
            ch = False

            def setv(r, x=True):
                nonlocal ch
                if x and not F.val.get(r):
                    F.val[r] = True
                    ch = True

            def setl(r, ls):
                nonlocal ch
                s = F.loc.setdefault(r, set())
                for l in list(ls):
                    if l in s or (l[0], None) in s:
                        continue
                    if any(q[0] == l[0] for q in s):
                        for q in [q for q in s if q[0] == l[0]]:
                            s.discard(q)
                        l = (l[0], None)
                    s.add(l)
                    ch = True

            def mark(ls):
                nonlocal ch
                for l in ls:
                    ms = self.gmem if l[0][0] == 'g' else F.mem
                    if l not in ms:
                        ms.add(l)
                        ch = True
                    if l[0][0] == 'p' and l not in F.writes:
                        F.writes.add(l)
            for b in f.order:
                for ins in b.insts:
                    op, r = ins.op, ins.res
                    if op == 'alloca':
                        setl(r, {(('a', r), 0)})
                    elif op == 'getelementptr':
                        st, base, idx = ins.a
                        for q, o in self.locs(F, base):
                            if o == 0 and self.retype(F, q, st):
                                ch = True
                        setl(r, {(q, self.gep(m, st, idx, o)) for q, o in self.locs(F, base)})
                        if any(self.tainted(F, v) for _, v in idx):
                            setv(r)
                    elif op == 'load':
                        ls = self.locs(F, ins.a[0])
                        if ins.ty[0] == 'ptr':
                            setl(r, {(('*', l), 0) for l in ls if self.depth(l[0]) < 3})
                        elif self.memget(F, ls, m.sizeof(ins.ty)):
                            setv(r)
                    elif op == 'store':
                        t, v, d, _ = ins.a
                        if t[0] == 'ptr':
                            for l in self.locs(F, d):
                                if l[0][0] == 'a':
                                    # what is loaded back from here
                                    k = (('*', l))
                                    for x in self.locs(F, v):
                                        self.alias(F, k, x)
                        elif self.tainted(F, v):
                            mark(self.locs(F, d))
                    elif op == 'phi':
                        for v, _ in ins.a:
                            if ins.ty[0] == 'ptr':
                                setl(r, self.locs(F, v))
                            if self.tainted(F, v) and not (v[0] == 'l' and self.leaves(F, acc, v[1], b)):
                                setv(r)
                    elif op == 'select':
                        c, x, y = ins.a
                        if ins.ty[0] == 'ptr':
                            setl(r, self.locs(F, x))
                            setl(r, self.locs(F, y))
                        if any(self.tainted(F, q) for q in (c, x, y)):
                            setv(r)
                    elif op == 'call':
                        if self.call(F, ins, setv, setl, mark):
                            out = True
                    elif op == 'ret':
                        if ins.a[0] is not None:
                            if ins.a[0][0] == 'ptr':
                                for l in self.locs(F, ins.a[1]):
                                    if l[0][0] in ('p', 'g') and l not in F.retlocs:
                                        F.retlocs.add(l)
                            elif self.tainted(F, ins.a[1]) and not (ins.a[1][0] == 'l' and self.leaves(F, acc, ins.a[1][1], b)):
                                F.ret = True
                    elif r is not None:
                        vs = [x for x in ins.a if isinstance(x, tuple) and x and x[0] == 'l']
                        if ins.ty[0] == 'ptr':
                            for v in vs:
                                setl(r, self.locs(F, v))
                        if any(self.tainted(F, v) and not self.leaves(F, acc, v[1], b) for v in vs):
                            setv(r)
        return out or before != (len(F.writes), F.ret, len(F.retlocs), len(self.gmem))

    def alias(self, F, k, x):
        pass

    def depth(self, r):
        n = 0
        while r[0] == '*':
            n += 1
            r = r[1][0]
        return n

    # ---- accumulated differences: secret inside the loop, a verdict after it
    def accumulators(self, F):
        f = F.f
        if getattr(F, 'acc', None) is not None:
            return F.acc
        F.acc = {}
        defs = {i.res: i for b in f.order for i in b.insts if i.res is not None}
        F.defs = defs
        for h, body in self.loops(f):
            for i in f.blocks[h].insts:
                if i.op != 'phi' or not isint(i.ty):
                    continue
                for v, p in i.a:
                    if p in body and v[0] == 'l' and self.ored(defs, v[1], i.res, 0):
                        F.acc[i.res] = body
        return F.acc

    def ored(self, defs, v, phi, n):
        """is v the phi combined by or with something else, perhaps through conversions"""
        d = defs.get(v)
        if d is None or n > 6:
            return False
        if d.op == 'or':
            ours = [x[0] == 'l' and (x[1] == phi or self.thru(defs, x[1], phi, 0)) for x in d.a]
            return any(ours) and not any(self.shifted(defs, x, 0) for x, y in zip(d.a, ours) if not y)
        if d.op in ('trunc', 'zext', 'sext'):
            return d.a[1][0] == 'l' and self.ored(defs, d.a[1][1], phi, n + 1)
        return False

    def shifted(self, defs, v, n):
        """bytes put together to a word"""
        d = defs.get(v[1]) if v[0] == 'l' else None
        if d is None or n > 6:
            return False
        if d.op in ('trunc', 'zext', 'sext'):
            return self.shifted(defs, d.a[1], n + 1)
        return d.op == 'shl'

    def thru(self, defs, v, phi, n):
        d = defs.get(v)
        if d is None or n > 6:
            return False
        if d.op in ('trunc', 'zext', 'sext'):
            return d.a[1][0] == 'l' and (d.a[1][1] == phi or self.thru(defs, d.a[1][1], phi, n + 1))
        return False

    def leaves(self, F, acc, v, block):
        """is v an accumulated difference used after its loop"""
        body = acc.get(v)
        return body is not None and block.name not in body

    def loops(self, f):
        """[(header, body block names)] of the natural loops"""
        f.analyze()
        return [(h, set(body)) for h, body in natural_loops(f)]

    # ---- calls
    def call(self, F, ins, setv, setl, mark):
        m = F.f.module
        callee, args = ins.a
        if callee[0] == 'asm':
            if any(self.tainted(F, v) or self.memget(F, self.locs(F, v), 8) for _, v in args) and ins.res:
                setv(ins.res)
            return False
        name = callee[1] if callee[0] == 'g' else None
        if name is not None and name.startswith('llvm.dbg'):
            return False
        if name is not None and (name in COPY or name.startswith(MEMINTR[:2])):
            if self.blocktaint(F, self.locs(F, args[1][1])):
                mark({(r, None) if o else (r, None) for r, o in self.locs(F, args[0][1])})
            return False
        if name is not None and (name.startswith('llvm.memset') or name in ('memset', 'noise_clean', 'sodium_memzero', 'OPENSSL_cleanse')):
            return False
        G = self.of(m, name) if name is not None else None
        out = False
        if G is not None:
            for i, (t, v) in enumerate(args):
                if i >= len(G.f.params):
                    continue
                if t[0] != 'ptr':
                    if self.tainted(F, v) and i not in G.args:
                        G.args.add(i)
                        out = True
                elif i not in G.secp and self.blocktaint(F, self.locs(F, v)):
                    G.secp.add(i)
                    out = True
            for (r, o) in G.writes:
                if r[1] < len(args):
                    mark({(q, None if p is None or o is None else p + o) for q, p in self.locs(F, args[r[1]][1])})
            if ins.res and name == 'noise_is_zero' and F in self.hidden:
                setv(ins.res)
            elif ins.res and name not in VERDICT:
                if G.ret and not (G in self.hidden and G in self.entry):
                    setv(ins.res)
                for (r, o) in G.retlocs:
                    if r[0] == 'p' and r[1] < len(args):
                        setl(ins.res, {(q, None if p is None or o is None else p + o) for q, p in self.locs(F, args[r[1]][1])})
                    elif r[0] == 'g':
                        setl(ins.res, {(r, o)})
            return out
        # unknown or external: secrets given to it come out of every block it was given
        if any(self.tainted(F, v) for _, v in args) or any(self.blocktaint(F, self.locs(F, v)) for t, v in args if t[0] == 'ptr'):
            mark({(r, None) for t, v in args if t[0] == 'ptr' for r, o in self.locs(F, v) if r[0] == 'a' and F.defs[r[1]].a[0][0] != 'int'})
        return False

    def blocktaint(self, F, ls):
        for r, o in ls:
            if self.policy(F, r, None if r[0] == 'p' and o is None else o):
                return True
            ms = self.gmem if r[0] == 'g' else F.mem
            if any(r2 == r and (o is None or o2 is None or o2 >= o) for r2, o2 in ms):
                return True
        return False

    # ---- verdicts
    def dies(self, f, b):
        """a failed assertion"""
        b = f.blocks[b]
        return b.insts[-1].op == 'unreachable' and any(i.op == 'call' for i in b.insts)

    def collect(self, F):
        f = F.f
        acc = F.acc
        m = f.module

        def t(v, b):
            return v[0] == 'l' and self.tainted(F, v) and not self.leaves(F, acc, v[1], b)
        for b in f.order:
            for ins in b.insts:
                op = ins.op
                k = None
                if op == 'br' and ins.a[0] is not None and t(ins.a[0], b) and not any(self.dies(f, x) for x in b.succs):
                    k = ('branch', 'a branch')
                elif op == 'switch' and t(ins.a[1], b):
                    k = ('branch', 'a switch')
                elif op in ('load', 'store') and t(ins.a[0] if op == 'load' else ins.a[2], b):
                    k = ('index', 'the address of a memory access')
                elif op in DIV and any(t(v, b) for v in ins.a):
                    k = ('division', 'a division')
                elif op == 'call' and ins.a[0][0] == 'g':
                    n = ins.a[0][1]
                    if n in COMPARE and any(self.blocktaint(F, self.locs(F, v)) for ty, v in ins.a[1] if ty[0] == 'ptr'):
                        k = ('compare', 'what %s compares' % n)
                    elif (n in COPY or n.startswith(MEMINTR)) and len(ins.a[1]) > 2 and t(ins.a[1][2][1], b):
                        k = ('index', 'the length of a copy')
                if k:
                    F.sinks.setdefault((k, ins.dbg), ins)


def natural_loops(f):
    """back edges and bodies from dominators computed here"""
    names = [b.name for b in f.order]
    idx = {}
    order = []
    seen = set()

    def dfs(n):
        stack = [(n, iter(f.blocks[n].succs))]
        seen.add(n)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(names[0])
    rpo = order[::-1]
    preds = {n: [] for n in rpo}
    for n in rpo:
        for s in f.blocks[n].succs:
            preds[s].append(n)
    dom = {n: None for n in rpo}
    dom[rpo[0]] = {rpo[0]}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            ps = [dom[p] for p in preds[n] if dom[p] is not None]
            d = set.intersection(*ps) | {n} if ps else {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    loops = {}
    for n in rpo:
        for s in f.blocks[n].succs:
            if s in dom[n]:
                body = loops.setdefault(s, {s})
                st = [n]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += preds[x]
    return list(loops.items())
