"""Runs one property's static rules on /repo's current tree:  python3 -m sa.run C01 [quick|thorough]

exit 0: every obligation discharged (or only listed known findings); exit 1: VIOLATION line; exit 2: the analysis
itself is broken (anchor vanished, budget exhausted, construct not understood) and says nothing about the property.
"""
import importlib, json, multiprocessing, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sa import build, llir, absint, libmodels   # noqa: E402
from sa.absint import Limit                      # noqa: E402


class Broken(Exception):
    pass


class V:
    """one violated obligation.  `inst` identifies the instance without line numbers."""

    def __init__(self, rule, where, inst, msg, path=(), config=''):
        self.rule, self.where, self.inst, self.msg, self.path, self.config = rule, where, inst, msg, list(path), config

    def ident(self):
        return '%s %s' % (self.rule, self.inst)


class Result:
    """what a worker sends back"""

    def __init__(self):
        self.viol = []
        self.cov = {}
        self.samples = []
        self.data = None

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def merge(self, o):
        self.viol += o.viol
        for k, v in o.cov.items():
            self.cov[k] = self.cov.get(k, 0) + v
        self.samples += o.samples[:3]


_CTX = None


def _worker(i):
    f, items = _CTX._job
    t0 = time.time()
    try:
        r = f(items[i])
        if os.environ.get('SA_TIME') and time.time() - t0 > 2:
            print('TIME %.1f %s' % (time.time() - t0, _name(items[i])), flush=True)
        return ('ok', r)
    except Limit as e:
        if os.environ.get('SA_TIME'):
            print('LIMIT %.1f %s' % (time.time() - t0, _name(items[i])), flush=True)
        return ('limit', '%s: %s' % (_name(items[i]), e))
    except Broken as e:
        return ('broken', '%s: %s' % (_name(items[i]), e))
    except Exception as e:
        return ('broken', '%s: %s' % (_name(items[i]), traceback.format_exc()))


def _name(x):
    if isinstance(x, (tuple, list)):
        return '/'.join(_name(y) for y in x)
    return getattr(x, 'name', None) or (x if isinstance(x, str) else '')


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.res = Result()
        self.libs = {}
        self.functions = set()
        self.units = set()
        self.problems = []
        self.kf_hit = []

    def lib(self, config='ref', crypto=False, extra=(), files=None):
        k = (config, crypto, tuple(extra), tuple(files or ()))
        if k not in self.libs:
            try:
                p = build.load(config, crypto=crypto, extra_units=extra, files=files)
            except build.BuildError as e:
                raise Broken('the tree does not compile: %s' % e)
            self.libs[k] = libmodels.Lib(p)
            for u in p.units:
                self.units.add(u)
        return self.libs[k]

    def pmap(self, f, items):
        """run f over items in forked workers; f returns a Result"""
        global _CTX
        _CTX = self
        items = list(items)
        self._job = (f, items)
        out = []
        if len(items) <= 1 or os.environ.get('SA_SERIAL'):
            it = map(_worker, range(len(items)))
            for r in it:
                out.append(r)
        else:
            with multiprocessing.get_context('fork').Pool(min(8, len(items))) as pool:
                out = pool.map(_worker, range(len(items)), chunksize=1)
        rs = []
        for kind, r in out:
            if kind == 'ok':
                rs.append(r)
                self.res.merge(r)
            else:
                self.problems.append('%s: %s' % (kind, r))
        return rs

    def fn(self, lib, name):
        f = lib.prog.ext.get(name)
        if f is None:
            raise Broken('anchor vanished: function %s is not defined in configuration %s' % (name, lib.prog.config))
        return f

    def count(self, k, n=1):
        self.res.count(k, n)

    def violation(self, rule, where, inst, msg, path=(), config=''):
        self.res.viol.append(V(rule, where, inst, msg, path, config))

    def require(self, cond, msg):
        if not cond:
            self.problems.append('anchor: ' + msg)


def engine_result(eng, prop_inst, config=''):
    """Result from an engine's reports; prop_inst(report) -> instance id"""
    r = Result()
    seen = set()
    for rep in eng.reports:
        v = V(rep.rule, rep.where, prop_inst(rep) if callable(prop_inst) else prop_inst, rep.msg, rep.path, config)
        k = (v.rule, v.inst, v.msg, v.where)
        if k in seen:
            continue
        seen.add(k)
        r.viol.append(v)
    return r


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)$', line)
            if m:
                out.append(m.groups())
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + prop.lower())
    ctx = Ctx(prop, tier)
    try:
        mod.check(ctx)
    except (Broken, Limit, build.BuildError) as e:
        ctx.problems.append(str(e))
    except Exception:
        ctx.problems.append(traceback.format_exc())
    known = [(k, d) for p, k, d in load_known() if p == prop]
    new, hit = [], {}
    seen = {}
    for v in ctx.res.viol:
        kk = [k for k, d in known if k == v.ident()]
        if kk:
            hit[kk[0]] = hit.get(kk[0], 0) + 1
            continue
        key = (v.rule, v.inst)
        if key in seen:
            seen[key].append(v)
        else:
            seen[key] = [v]
            new.append(v)
    cov = dict(ctx.res.cov)
    for k, n in getattr(mod, 'MIN', {}).items():
        if cov.get(k, 0) < n:
            ctx.problems.append('anchor: %s is %d, expected at least %d' % (k, cov.get(k, 0), n))
    cov['units_analysed'] = len(ctx.units)
    cov['units'] = sorted(ctx.units)
    cov['rules'] = mod.RULES
    cov['samples'] = ctx.res.samples[:12]
    ob = cov.get('obligations', 0)
    level = getattr(mod, 'LEVEL', 'other')
    cov['explanation'] = mod.EXPLANATION
    cov['discharged'] = ob - min(ob, len(ctx.res.viol)) if ob else 0
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS}
    vd = []
    edir = os.environ.get('SA_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    rpath = os.path.join('evidence', '%s.violations.txt' % prop)
    if new:
        with open(os.path.join(VERIF, rpath), 'w') as f:
            for v in new:
                txt = '%s: [%s] %s\n  instance: %s\n  configuration: %s\n' % (v.where, v.rule, v.msg, v.inst, v.config)
                if v.path:
                    txt += '  path:\n' + ''.join('    %s\n' % x for x in v.path)
                more = len(seen[(v.rule, v.inst)]) - 1
                if more:
                    txt += '  (%d more occurrence(s) of the same instance)\n' % more
                f.write(txt + '\n')
                print(txt)
                vd.append('%s [%s] %s' % (v.where, v.rule, v.msg))
    ev['violations'] = len(new)
    cov['violation_text'] = vd
    cov['problems'] = ctx.problems
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, d in known:
        if k in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
    short = {k: v for k, v in cov.items() if isinstance(v, int)}
    print('%s: %s' % (prop, ' '.join('%s=%s' % kv for kv in sorted(short.items()))))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
        return 1
    if ctx.problems:
        for p in ctx.problems:
            print('ANALYSIS-BROKEN: ' + p)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'clang 18 -O0 LLVM IR of the units and flags of the autotools build stands for the program (x86-64)',
    'objects reached through distinct parameters or distinct pointer fields do not overlap unless the code says so',
    'calls through the backend function tables behave as their models say (C20 checks the backends against them)',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
