"""C16: secrets are compared and handled without secret-dependent branches."""
from .. import equal, public, taint
from ..build import CR_ED, P448
from ..run import Result, V, Broken

RULES = [
    'helpers: noise_is_equal is 1 exactly for equal blocks and noise_is_zero 1 exactly for zero blocks (every byte position of blocks of up to 56 bytes), and both look at every byte for every length',
    'branch: no branch of the protocol core, the backends or the primitives depends on the bytes of a key, message, digest or other block (the outcome of a whole comparison excepted)',
    'index: no memory access is addressed, and no copy sized, by such a byte (the tables of the reference AES excepted)',
    'division: no division has such an operand',
    'compare: memcmp and its kin are never used on such blocks',
    'null: calculating a shared key does not branch on whether the public key is null',
    'cover: a comparison with a complete local block covers all of it',
]
EXPLANATION = ('a field-sensitive taint analysis over the SSA form of every function of the protocol core, the backends of all three configurations and the '
               'primitives, iterated over calls to a fixed point: arrays in library objects, the blocks they point to and the byte and word blocks given to '
               'entry points are secret; every branch, switch, address, copy length, division and compare of theirs is examined. Names, formatted '
               'fingerprints and signature verification, which handle nothing secret, are not')
MIN = {'comparisons': 500, 'functions': 900, 'branches': 2000, 'secret_values': 5000, 'secret_blocks': 500, 'equal_calls': 8}
ASSUMPTIONS = ['the compiler does not introduce branches of its own (C16 decides the IR of the unoptimised source)',
               'scalar members of library objects and integer arguments are no secrets unless computed from some']
# nothing these compute with is secret
OPEN = ['noise_format_fingerprint', 'ed25519_sign_open', 'ed25519_sign_open_batch']
PUBLIC_FIELDS = ['tokens']
# block counter and nonce
PUBLIC_BYTES = [('chacha_ctx', 48, 64)]
HIDDEN = ['noise_dhstate_calculate']
SCOPE = ('src/protocol/', 'src/backend/', 'src/crypto/')
NOT = ('src/protocol/names.c',)
TABLES = ('src/crypto/aes/',)


def flows(ctx, config):
    lib = ctx.lib(config, crypto=True, extra=tuple(P448 + (CR_ED if config != 'sodium' else [])))
    prog = lib.prog
    T = taint.Taint(prog, public.functions(), public=PUBLIC_FIELDS, publicbytes=PUBLIC_BYTES, hidden=HIDDEN).run()
    free = T.within(OPEN)
    for F in T.fns.values():
        u = F.f.module.name
        if not u.startswith(SCOPE) or u in NOT or F in free:
            continue
        ctx.count('functions')
        ctx.count('secret_values', sum(1 for v in F.val.values() if v))
        ctx.count('secret_blocks', len({r for r, o in F.mem}))
        ctx.count('branches', sum(1 for b in F.f.order for i in b.insts if i.op in ('br', 'switch') and len(b.succs) > 1))
        for (k, dbg), ins in F.sinks.items():
            if k[0] == 'index' and u.startswith(TABLES):
                continue
            fl, ln = F.f.module.loc(dbg)
            rule = 'null' if F in T.hidden and k[0] == 'branch' else k[0]
            ctx.violation(rule, '%s:%d' % (fl, ln), '%s %s %s' % (F.f.name, k[0], fl), '%s depends on secret bytes' % k[1] if k[0] != 'compare' else '%s is secret' % k[1],
                          config=config)
        cover(ctx, F, config)


def cover(ctx, F, config):
    m = F.f.module
    for b in F.f.order:
        for ins in b.insts:
            if ins.op != 'call' or ins.a[0] != ('g', 'noise_is_equal'):
                continue
            ctx.count('equal_calls')
            n = ins.a[1][2][1]
            if n[0] != 'c':
                continue
            for t, v in ins.a[1][:2]:
                d = F.defs.get(v[1]) if v[0] == 'l' else None
                if d is not None and d.op == 'getelementptr' and all(x == ('c', 0) for _, x in d.a[2]):
                    d = F.defs.get(d.a[1][1]) if d.a[1][0] == 'l' else None
                if d is not None and d.op == 'alloca' and d.a[0][0] == 'arr' and m.sizeof(d.a[0]) > n[1]:
                    fl, ln = m.loc(ins.dbg)
                    ctx.violation('cover', '%s:%d' % (fl, ln), '%s %s' % (F.f.name, fl), 'only %d of %d bytes are compared' % (n[1], m.sizeof(d.a[0])), config=config)


def check(ctx):
    for c in ('ref', 'openssl', 'sodium'):
        flows(ctx, c)
    lib = ctx.lib('ref')
    ctx.pmap(equal.job, [(lib, n, 'helpers') for n in equal.HELPERS])
