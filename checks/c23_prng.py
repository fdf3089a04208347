"""C23: random numbers."""
import json
import threading

import numpy as np

from vf.core import sub_seed

PROPERTY = "C23"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: call histories on the real generators (serial and threaded, with saved and restored states) with online checks of completeness, of each number being used once, of the same continuation after every restore, and statistical tests of distribution and independence with fixed, tiny false-alarm probabilities"
NOTE = "Random call sequences over all the interfaces, array shapes and layouts, 1 to 8 threads, states through the real XML input; distribution tests on 2e5 numbers per stream at p<1e-9; seeds are fixed so a verdict never varies."
RULE = "each evaluation is one comparison of a stream, one completeness test of an array or one statistical test; distinct counts history signatures"
ASSUMPTIONS = []
REQUIRE = {"restore": 60, "fill": 60, "once": 20, "stat": 60, "seed": 20}


def cases(tier, seed):
    n = {"quick": (40, 24, 12), "thorough": (800, 300, 150)}[tier]
    out = [dict(name="hist_%d" % i, kind="hist", cseed=sub_seed(seed, "h", i)) for i in range(n[0])]
    out += [dict(name="fill_%d" % i, kind="fill", cseed=sub_seed(seed, "f", i)) for i in range(n[1])]
    out += [dict(name="stat_%d" % i, kind="stat", cseed=sub_seed(seed, "s", i)) for i in range(n[2])]
    return out


SHAPES = [(1,), (3,), (7, 5), (99,), (100,), (101,), (2, 3, 4), (1, 1), (250, 3), (801,), (1, 1999), (16, 33, 2), (799,), (800,), (3, 1000)]


def call(r, op):
    k = op[0]
    if k == "u":
        return [r.u]
    if k == "g":
        return [r.g]
    if k == "gvec":
        return r.gvec(tuple(op[1])).ravel()
    if k == "gfill":
        a = np.full(tuple(op[1]), np.nan)
        r.gfill(a)
        return a.ravel()
    if k == "gamma":
        return np.atleast_1d(r.gamma(*op[1:]))
    if k == "uniform":
        return np.atleast_1d(r.uniform(*op[1:])).ravel()
    if k == "poisson":
        return np.atleast_1d(r.poisson(*op[1:])).ravel()
    if k == "integers":
        return np.atleast_1d(r.integers(*op[1:])).ravel()
    if k == "shuffle":
        x = np.arange(op[1])
        r.shuffle(x)
        return x


def rand_op(rng):
    k = str(rng.choice(["u", "g", "g", "gvec", "gvec", "gfill", "gamma", "uniform", "poisson", "integers", "shuffle"]))
    if k in ("gvec", "gfill"):
        return [k, list(SHAPES[rng.integers(len(SHAPES))])]
    if k == "gamma":
        return [k, float(rng.uniform(0.5, 50))]
    if k == "uniform":
        return [k, -1.0, 3.0, int(rng.integers(1, 9))]
    if k == "poisson":
        return [k, 3.5, int(rng.integers(1, 9))]
    if k == "integers":
        return [k, 0, 1000, int(rng.integers(1, 9))]
    if k == "shuffle":
        return [k, int(rng.integers(2, 30))]
    return [k]


def play(r, ops):
    out = []
    for o in ops:
        out.append(np.array(call(r, o), float).ravel())
    return np.concatenate(out) if out else np.zeros(0)


def through_xml(r):
    from ipi.inputs.prng import InputRandom
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    i = InputRandom()
    i.store(r)
    txt = i.write(name="prng", indent="")
    j = InputRandom()
    j.parse(xml_parse_string(txt).fields[0][1])
    return j.fetch()


def run_hist(case, rec):
    from ipi.utils.prng import Random

    rng = np.random.default_rng(case["cseed"])
    nt = int(rng.choice([1, 1, 2, 3, 4, 8]))
    seed = int(rng.choice([0, 1, 7, 123456, int(rng.integers(1, 1 << 31))]))
    sig = "%d" % nt
    rec.sample("%d threads seed %d" % (nt, seed))
    ops = [rand_op(rng) for _ in range(40)]
    full = play(Random(seed, n_threads=nt), ops)
    again = play(Random(seed, n_threads=nt), ops)
    rec.check(np.array_equal(full, again), "restore", "the same seed and calls give different numbers (%d threads)" % nt, sig)
    cont = np.array([float(o[0] not in ("poisson", "integers", "shuffle")) for o in ops])
    # stop at several points, save, restore in three ways, and continue
    for cut in sorted(set(int(x) for x in rng.integers(0, len(ops), 5))):
        r = Random(seed, n_threads=nt)
        head = play(r, ops[:cut])
        st = json.dumps(r.state, default=lambda o: o.tolist() if hasattr(o, "tolist") else int(o))
        x = through_xml(r)
        rec.check(x.n_threads == nt and x.seed == seed, "restore", "seed or number of threads changed by a checkpoint", sig)
        tail = play(r, ops[cut:])
        rec.check(np.array_equal(np.concatenate([head, tail]), full), "restore", "asking for the state changes the stream", sig + "get")
        rec.check(np.array_equal(play(x, ops[cut:]), tail), "restore", "the stream continues differently after a checkpoint (%d threads, call %d)" % (nt, cut), sig + "xml")
        # restoring into a generator that was already used, and replaying twice
        y = Random(seed + 1, n_threads=nt)
        play(y, ops[: int(rng.integers(1, 10))])
        y.state = json.loads(st)
        rec.check(np.array_equal(play(y, ops[cut:]), tail), "restore", "the stream continues differently after setting the state", sig + "set")
        y.state = json.loads(st)
        rec.check(np.array_equal(play(y, ops[cut:]), tail), "restore", "setting the state a second time", sig + "set2")
        z = Random(seed=seed, state=json.loads(st), n_threads=nt)
        rec.check(np.array_equal(play(z, ops[cut:]), tail), "restore", "constructing from a state", sig + "ctor")
    # a scalar and an array of one element are the same draw; consecutive serial arrays concatenate
    if nt == 1:
        a, b = Random(seed), Random(seed)
        rec.check(np.array_equal([a.g for _ in range(20)], b.gvec((20,))), "restore", "scalar and array Gaussians differ", sig)
        rec.check(np.array_equal([a.u for _ in range(20)], b.uniform(size=20)), "restore", "scalar and array uniforms differ", sig)
    # no number is used twice, across calls and across threads
    r = Random(seed, n_threads=nt)
    g = np.concatenate([np.array(r.gvec((int(k),))) for k in rng.integers(90 * nt, 900 * nt, 12)] + [[r.g for _ in range(50)]])
    rec.check(len(np.unique(g)) == len(g), "once", "%d repeated Gaussian numbers out of %d (%d threads)" % (len(g) - len(np.unique(g)), len(g), nt), sig)
    # different seeds
    for s2 in (seed + 1, seed + 1000003):
        h = np.array(Random(s2, n_threads=nt).gvec((5000,)))
        h0 = np.array(Random(seed, n_threads=nt).gvec((5000,)))
        rec.check(len(np.intersect1d(h, h0)) == 0, "seed", "seeds %d and %d share numbers" % (seed, s2), sig)
        c = float(np.corrcoef(h, h0)[0, 1])
        rec.check(abs(c) < 6.5 / np.sqrt(5000), "seed", "seeds %d and %d are correlated (%g)" % (seed, s2, c), sig)


def run_fill(case, rec):
    from ipi.utils.prng import Random

    rng = np.random.default_rng(case["cseed"])
    nt = int(rng.choice([1, 2, 3, 5, 7, 8]))
    r = Random(int(rng.integers(1, 1 << 30)), n_threads=nt)
    for _ in range(12):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(x) for x in rng.integers(1, {1: 5000, 2: 70, 3: 17}[nd], nd))
        lay = str(rng.choice(["C", "F", "strided", "reversed", "vec"]))
        if nt == 1 and lay not in ("C", "F"):
            lay = "C"
        if lay == "vec":
            a = np.array(r.gvec(shape))
            rec.check(a.shape == shape, "fill", "gvec%s returned shape %s" % (shape, a.shape), lay)
            pad = None
        else:
            if lay in ("C", "F"):
                a = np.full(shape, np.nan, order=lay)
                pad = None
            elif lay == "strided":
                pad = np.full(tuple(2 * x for x in shape), np.nan)
                a = pad[tuple(slice(None, None, 2) for _ in shape)]
            else:
                pad = None
                a = np.full(shape, np.nan)[::-1]
            try:
                r.gfill(a)
            except ValueError:
                # a layout that cannot be filled must be refused, not filled in part
                rec.check(bool(np.all(np.isnan(a))), "fill", "%s array refused after filling a part" % lay, lay)
                continue
        n = int(np.sum(~np.isfinite(a)))
        rec.check(n == 0, "fill", "%d of %d elements not filled, shape %s %s, %d threads" % (n, a.size, shape, lay, nt), "%s%d" % (lay, nt))
        rec.check(len(np.unique(a)) == a.size, "fill", "repeated numbers in one array %s %s" % (shape, lay), lay)
        if pad is not None:
            rec.check(int(np.sum(np.isfinite(pad))) == a.size, "fill", "numbers written outside the array", lay)
    # several generators at work at the same time do not share streams
    if nt > 1:
        rs = [Random(1000 + i, n_threads=nt) for i in range(4)]
        want = [np.array(Random(1000 + i, n_threads=nt).gvec((3000,))) for i in range(4)]
        got = [None] * 4

        def job(i):
            got[i] = np.array(rs[i].gvec((3000,)))

        th = [threading.Thread(target=job, args=(i,)) for i in range(4)]
        [t.start() for t in th]
        [t.join() for t in th]
        for i in range(4):
            rec.check(np.array_equal(got[i], want[i]), "once", "generator %d gives other numbers when others run at the same time" % i, str(nt))


def run_stat(case, rec):
    from scipy import stats

    from ipi.utils.prng import Random

    rng = np.random.default_rng(case["cseed"])
    seed = int(rng.integers(1, 1 << 31))
    nt = int(rng.choice([1, 2, 4, 7]))
    sig = str(nt)
    N = 200000
    PMIN = 1e-9

    def test(x, cdf, what):
        p = stats.kstest(x, cdf).pvalue
        rec.check(p > PMIN, "stat", "%s: Kolmogorov-Smirnov p=%g (seed %d, %d threads)" % (what, p, seed, nt), what)

    r = Random(seed, n_threads=nt)
    g = np.array(r.gvec((N,)))
    test(g, "norm", "gvec")
    a = np.empty((N // 10, 10))
    r.gfill(a)
    test(a.ravel(), "norm", "gfill")
    test(np.array([r.g for _ in range(30000)]), "norm", "g")
    u = np.array([r.u for _ in range(30000)])
    test(u, "uniform", "u")
    rec.check(float(u.min()) >= 0 and float(u.max()) < 1, "stat", "u outside [0,1)", sig)
    test(np.array(r.uniform(-2.0, 5.0, N)), stats.uniform(-2, 7).cdf, "uniform")
    for k, th in ((0.5, 1.0), (7.3, 2.5), (150.0, 1.0)):
        test(np.array(r.gamma(k, th, size=50000)), stats.gamma(k, scale=th).cdf, "gamma(%g,%g)" % (k, th))
        test(np.array([r.gamma(k) for _ in range(3000)]), stats.gamma(k).cdf, "gamma(%g)" % k)
    for lam in (0.7, 12.0):
        x = np.array(r.poisson(lam, 50000))
        kk = np.arange(0, int(x.max()) + 1)
        e = stats.poisson(lam).pmf(kk) * len(x)
        o = np.bincount(x, minlength=len(kk))
        keep = e > 10
        c = float(np.sum((o[keep] - e[keep]) ** 2 / e[keep]))
        rec.check(stats.chi2(keep.sum()).sf(c) > PMIN, "stat", "poisson(%g): chi2 %g for %d bins" % (lam, c, keep.sum()), "poisson")
    x = np.array(r.integers(3, 11, 80000))
    rec.check(int(x.min()) == 3 and int(x.max()) == 10, "stat", "integers(3,11) span %d..%d" % (x.min(), x.max()), "integers")
    c = float(np.sum((np.bincount(x, minlength=11)[3:] - 1e4) ** 2 / 1e4))
    rec.check(stats.chi2(7).sf(c) > PMIN, "stat", "integers: chi2 %g" % c, "integers")
    # shuffles: every position is equally likely
    cnt = np.zeros((6, 6))
    for _ in range(6000):
        y = np.arange(6)
        r.shuffle(y)
        cnt[np.arange(6), y] += 1
    c = float(np.sum((cnt - 1000) ** 2 / 1000))
    rec.check(stats.chi2(25).sf(c) > PMIN, "stat", "shuffle: chi2 %g" % c, "shuffle")
    # independence: lags within a stream, and blocks given to different threads
    for lag in (1, 2, 3, 623, 624, 1000):
        rho = float(np.corrcoef(g[:-lag], g[lag:])[0, 1])
        rec.check(abs(rho) < 6.5 / np.sqrt(N), "stat", "lag %d correlation %g" % (lag, rho), "lag")
    step = -(-N // nt)
    bl = [g[i * step : (i + 1) * step] for i in range(nt)]
    for i in range(nt):
        for j in range(i):
            n = min(len(bl[i]), len(bl[j]))
            rho = float(np.corrcoef(bl[i][:n], bl[j][:n])[0, 1])
            rec.check(abs(rho) < 6.5 / np.sqrt(n), "stat", "threads %d and %d are correlated: %g" % (i, j, rho), "threads")
    # the Gaussian stream is not correlated with the uniforms drawn at the same time
    r = Random(seed, n_threads=nt)
    gu = np.array([(r.g, r.u, r.g) for _ in range(30000)])
    for i, j in ((0, 1), (1, 2), (0, 2)):
        rho = float(np.corrcoef(gu[:, i], gu[:, j])[0, 1])
        rec.check(abs(rho) < 6.5 / np.sqrt(30000), "stat", "g and u drawn in turn are correlated: %g" % rho, "mix")


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
