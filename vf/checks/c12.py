"""C12: time series storage keeps every sample, in order, and copies are independent."""
import contextlib
import os
import pickle
import shutil
import tempfile

import casadi as ca

from ..concolic import explore
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "DataSet (the store behind simulation and optimisation results) runs on symbolic sample times and values. Where it "
    "compares times, a path explorer forks on the outcome and z3 prunes the impossible ones; on every path z3 decides, "
    "for all times and values of that path, that the stored times are non-decreasing after sorting and that the stored "
    "(time, value) pairs are exactly the inserted ones: as multisets, by comparing the sum of an arbitrary function "
    "over the pairs. Tables made of a set (and of the results of a network) hold the stored symbols and no others. Copies and merged sets are compared before and after edits of the other one.")
BOUNDS = "1..3 entries of 1..3 rows, up to 4 samples per entry in up to 3 insertions, every order of the sample times"
ASSUMPTIONS = ["two sample times are equal or at least 1e-3 apart"]


def mods():
    import yaocptool.modelling.dataset as d
    return [d]


def new(cls="DataSet"):
    from yaocptool.modelling import DataSet
    return DataSet(name="d")


def multiset(ctx, k, T, V):
    """Sum over samples of an arbitrary function of (time, value)."""
    T, V = SX(T), SX(V)
    e = SX(0)
    for i in range(T.numel()):
        e = e + ctx.uf(k, T[i], V[:, i])
    return e


def ok_shape(ctx, name, ds, entry, n, k):
    t, v = ds.get_entry(entry)
    good = tuple(t.shape) == (1, n) and tuple(v.shape) == (k, n)
    ctx.require(name + " shape", good, "times %s values %s instead of %d samples of %d" % (t.shape, v.shape, n, k))
    return good


def holds(ctx, name, ds, entry, T, V, k, ordered=True, row=3):
    """The entry stores the samples (T, V); ordered: chronologically."""
    n = len(T)
    if not ok_shape(ctx, name, ds, entry, n, k):
        return
    t, v = ds.get_entry(entry)
    t, v = SX(t), SX(v)
    if ordered and n > 1:
        ctx.implies(name + " chronological", [], [(t[i + 1], t[i], 0.0, None) for i in range(n - 1)], eps=1e-6,
                    twin=False)
    ctx.equal(name + " samples", multiset(ctx, row, t, v), multiset(ctx, row, ca.horzcat(*T), ca.horzcat(*V)))


def exact(ctx, name, ds, entry, T, V, k):
    """The entry stores exactly these columns in this order."""
    if ok_shape(ctx, name, ds, entry, len(T), k):
        t, v = ds.get_entry(entry)
        ctx.equal(name + " times", ca.vec(SX(t)), SX(ca.vertcat(*T)))
        ctx.equal(name + " values", ca.vec(SX(v)), SX(ca.vertcat(*V)))


def samples(vals, tag, n, k):
    return [vals("%st%d" % (tag, i)) for i in range(n)], [vals("%sv%d" % (tag, i), k) for i in range(n)]


def put(ds, entry, T, V, how):
    if how == "one by one":
        for t, v in zip(T, V):
            ds.insert_data(entry, t, v)
    elif how == "list":
        ds.insert_data(entry, list(T), ca.horzcat(*V))
    elif how == "row":
        ds.insert_data(entry, ca.horzcat(*T), ca.horzcat(*V))
    elif how == "chunks":
        ds.insert_data(entry, ca.horzcat(*T[:1]), ca.horzcat(*V[:1]))
        ds.insert_data(entry, list(T[1:]), ca.horzcat(*V[1:]))
    else:
        raise AssertionError(how)


def sort(ctx, n, k, how, other=False, some=False, times=None):
    def fn(vals):
        ds = new()
        ds.create_entry("a", size=k)
        T, V = samples(vals, "a", n, k)
        if times:
            T = [ca.DM(t) for t in times]
        put(ds, "a", T, V, how)
        exact(ctx, "inserted", ds, "a", T, V, k)
        if other:
            ds.create_entry("b", size=1, names=["bb"])
            T2, V2 = samples(vals, "b", 2, 1)
            put(ds, "b", T2, V2, "row")
        ds.sort(["a"]) if some else ds.sort()
        holds(ctx, "sorted", ds, "a", T, V, k)
        if other:
            if some:
                exact(ctx, "entry not sorted", ds, "b", T2, V2, 1)
            else:
                holds(ctx, "other entry", ds, "b", T2, V2, 1, row=5)
    explore(ctx, fn, mods())


def empty(ctx):
    def fn(vals):
        ds = new()
        ds.create_entry("a", size=2)
        ds.create_entry("never", size=1)
        T, V = samples(vals, "a", 2, 2)
        put(ds, "a", T, V, "row")
        ds.sort()
        holds(ctx, "sorted", ds, "a", T, V, 2)
        t, v = ds.get_entry("never")
        ctx.require("nothing appears", t.numel() == 0 and v.numel() == 0, "samples %s %s" % (t, v))
        o = new()
        o.create_entry("a", size=2)
        o.create_entry("never", size=1)
        ds.extend(o)
        holds(ctx, "extended by nothing", ds, "a", T, V, 2)
    explore(ctx, fn, mods())


def extend(ctx, n1, n2, k, fresh=False):
    def fn(vals):
        a, b = new(), new()
        a.create_entry("e", size=k, names=["n%d" % i for i in range(k)])
        b.create_entry("e", size=k, names=["n%d" % i for i in range(k)])
        T1, V1 = samples(vals, "p", n1, k)
        T2, V2 = samples(vals, "q", n2, k)
        put(a, "e", T1, V1, "row")
        put(b, "e", T2, V2, "one by one")
        if fresh:
            b.create_entry("g", size=2, names=["g0", "g1"])
            T3, V3 = samples(vals, "r", 2, 2)
            put(b, "g", T3, V3, "list")
        a.extend(b)
        holds(ctx, "joined", a, "e", T1 + T2, V1 + V2, k)
        exact(ctx, "argument unchanged", b, "e", T2, V2, k)
        ctx.require("names", list(a.get_entry_names("e")) == ["n%d" % i for i in range(k)], "names")
        if fresh:
            ctx.require("new entry", a.get_entry_size("g") == 2 and list(a.get_entry_names("g")) == ["g0", "g1"], "entry")
            holds(ctx, "new entry", a, "g", T3, V3, 2, row=7)
            exact(ctx, "argument keeps its own", b, "g", T3, V3, 2)
        # the two sets stay independent
        b.insert_data("e", 100.0, SX(DM.ones(k)) if isinstance(V1[0], SX) else DM.ones(k))
        b.sort()
        holds(ctx, "joined, after an edit of the argument", a, "e", T1 + T2, V1 + V2, k)
    explore(ctx, fn, mods())


def copies(ctx, kind):
    def fn(vals):
        if kind == "dataset":
            a = new()
            a.create_entry("x", size=2, names=["r", "s"], plot_style="step")
        else:
            from yaocptool.modelling import SimulationResult
            a = SimulationResult(n_x=2, n_y=1, n_u=1, x_names=["r", "s"], y_names=["yy"], u_names=["uu"], t_0=0.0, t_f=2.0,
                                 delta_t=1.0, finite_elements=2)
        T, V = samples(vals, "p", 2, 2)
        put(a, "x", T, V, "row")
        c = a.get_copy()
        exact(ctx, "copy", c, "x", T, V, 2)
        ctx.require("copy kind", type(c) is type(a) and c.name == a.name and list(c.get_entry_names("x")) == ["r", "s"]
                    and c.get_entry_size("x") == 2, "attributes of the copy")
        c.insert_data("x", vals("nt"), vals("nv", 2))
        c.create_entry("only_copy", size=1)
        exact(ctx, "original after edit of the copy", a, "x", T, V, 2)
        ctx.require("entries of the original", "only_copy" not in a.data, "entry appeared in the original")
        c2 = a.get_copy()
        a.insert_data("x", vals("mt"), vals("mv", 2))
        a.sort()
        exact(ctx, "copy after edit of the original", c2, "x", T, V, 2)
        c2.get_entry_names("x")[0] = "renamed"
        ctx.require("names of the original", list(a.get_entry_names("x")) == ["r", "s"], "names shared")
    explore(ctx, fn, mods())


def refuse(ctx):
    def fn(vals):
        ds = new()
        ds.create_entry("a", size=2)
        T, V = samples(vals, "a", 3, 2)
        put(ds, "a", T[:2], V[:2], "row")
        for n, f in {"more values than times": lambda: ds.insert_data("a", [T[2]], ca.horzcat(*V)),
                     "more times than values": lambda: ds.insert_data("a", list(T), ca.horzcat(*V[:2])),
                     "a scalar time for two columns": lambda: ds.insert_data("a", 1.0, ca.horzcat(*V[:2]))}.items():
            try:
                f()
                bad = True
            except ValueError:
                bad = False
            ctx.require("refuses " + n, not bad, "accepted " + n)
            exact(ctx, "unchanged after refusing " + n, ds, "a", T[:2], V[:2], 2)
        o = new()
        o.create_entry("a", size=3)
        o.insert_data("a", 0.0, DM([1, 2, 3]))
        try:
            ds.extend(o)
            bad = True
        except ValueError:
            bad = False
        ctx.require("refuses other sizes", not bad, "joined entries of different size")
        exact(ctx, "unchanged after refusing a join", ds, "a", T[:2], V[:2], 2)
    explore(ctx, fn, mods())


def entries(ctx):
    """Entries are separate; names, sizes and kinds of time argument."""
    def fn(vals):
        ds = new()
        ds.create_entry("a", size=2)
        ds.create_entry("b", size=2, names=["one", "two"])
        ctx.require("names", list(ds.get_entry_names("a")) == ["a_0", "a_1"] and
                    list(ds.get_entry_names("b")) == ["one", "two"], "%s" % ds.get_entry_names("a"))
        ctx.require("sizes", ds.get_entry_size("a") == 2 and ds.get_entry_size("b") == 2, "sizes")
        va, vb, vc = vals("va", 2), vals("vb", 2), vals("vc", 2)
        ds.insert_data("a", 2, va)
        exact(ctx, "integer time", ds, "a", [DM(2)], [va], 2)
        ctx.require("other entry untouched", ds.get_entry("b")[0].numel() == 0, "data in the other entry")
        ds.insert_data("b", 0.5, vb)
        ds.insert_data("a", DM([1.5]), vc)
        exact(ctx, "two kinds of time", ds, "a", [DM(2), DM(1.5)], [va, vc], 2)
        exact(ctx, "second entry", ds, "b", [DM(0.5)], [vb], 2)
        d2 = new()
        d2.create_entry("a", size=2)
        ctx.require("fresh set", d2.get_entry("a")[0].numel() == 0 and d2.get_entry("a")[1].numel() == 0,
                    "a new data set is not empty")
        d2.create_entry("free", size=None, names=["q", "r"])
        d2.insert_data("free", 1.0, va)
        ctx.require("size found", d2.get_entry_size("free") == 2, "size %s" % d2.get_entry_size("free"))
    explore(ctx, fn, mods())


def saved(ctx, k, n):
    """Saving and loading: the same samples (symbols identified by name)."""
    def fn(vals):
        ds = new()
        ds.create_entry("a", size=k, names=["n%d" % i for i in range(k)], plot_style="step")
        T, V = samples(vals, "a", n, k)
        put(ds, "a", T, V, "row")
        tmp = tempfile.mkdtemp(prefix="vf_ds_")
        try:
            path = os.path.join(tmp, "sub", "data.p")
            ds.save(path)
            exact(ctx, "unchanged by saving", ds, "a", T, V, k)
            try:
                with open(path, "rb") as f:
                    back = pickle.load(f)
            except (OSError, EOFError, pickle.UnpicklingError) as e:
                ctx.require("loads", False, "the saved file cannot be loaded: %r" % e)
                return
        finally:
            shutil.rmtree(tmp)
        ctx.require("loaded kind", type(back) is type(ds) and list(back.get_entry_names("a")) == ["n%d" % i for i in range(k)]
                    and back.get_entry_size("a") == k and back.name == ds.name, "attributes")
        if not ok_shape(ctx, "loaded", back, "a", n, k):
            return
        for i, w in ((0, ca.vertcat(*T)), (1, ca.vertcat(*V))):
            g = ca.vec(SX(back.get_entry("a")[i]))
            mine = {s.name(): s for s in ca.symvar(SX(w))}
            for s in ca.symvar(g):
                if s.name() in mine:
                    g = ca.substitute(g, s, mine[s.name()])
            ctx.equal("loaded %s" % ("times", "values")[i], g, SX(w))
    explore(ctx, fn, mods(), max_paths=5)


@contextlib.contextmanager
def arrays():
    """A symbolic matrix becomes an array of its (symbolic) elements, as a numeric one does."""
    import numpy

    def full(self):
        if self.is_constant():
            return DM(self).full()
        out = numpy.empty(self.shape, dtype=object)
        for i in range(self.shape[0]):
            for j in range(self.shape[1]):
                out[i, j] = self[i, j]
        return out
    had = {n: SX.__dict__.get(n) for n in ("full", "toarray")}
    for n in had:
        setattr(SX, n, full)
    try:
        yield
    finally:
        for n, f in had.items():
            if f is None:
                delattr(SX, n)
            else:
                setattr(SX, n, f)


def table(ctx, name, df, ds_samples):
    """Every column holds exactly the samples of its row of its entry, at their times."""
    cols = {(e, n): i for e, (names, T, V) in ds_samples.items() for i, n in enumerate(names)}
    have = [tuple(c) for c in df.columns]
    ctx.require(name + " columns", sorted(have) == sorted(cols), "columns %s instead of %s" % (sorted(have), sorted(cols)))
    if sorted(have) != sorted(cols):
        return
    for e, (names, T, V) in ds_samples.items():
        for i, n in enumerate(names):
            col = df.iloc[:, have.index((e, n))]
            got = [(float(t), v) for t, v in zip(df.index.tolist(), col.tolist()) if isinstance(v, (SX, DM)) or v == v]
            left = set(range(len(T)))
            for t, v in got:
                same = [j for j in range(len(T)) if abs(T[j] - t) < 1e-9]
                if not same:
                    ctx.require("%s %s.%s" % (name, e, n), False, "a value at %s, where nothing was stored" % t)
                    return
                hit = [j for j in same if ca.is_equal(SX(v), SX(V[j][i]), 5)]
                left -= set(hit)
                ctx.equal("%s %s.%s at %s" % (name, e, n, t), SX(v), SX(V[(hit or same)[0]][i]))
            ctx.require("%s %s.%s" % (name, e, n), not left, "the sample at %s is missing" % [T[j] for j in left])


def frame(ctx, layout):
    def fn(vals):
        ds = new()
        ds.create_entry("never", size=2)
        want = {}
        for e, (k, T) in layout.items():
            names = ["%s%d" % (e, i) for i in range(k)]
            ds.create_entry(e, size=k, names=list(names))
            V = [vals("%sv%d" % (e, j), k) for j in range(len(T))]
            put(ds, e, [DM(t) for t in T], V, "row")
            want[e] = (names, T, V)
        with arrays():
            df = ds.as_dataframe()
        table(ctx, "table", df, want)
        for e, (names, T, V) in want.items():
            exact(ctx, "unchanged " + e, ds, e, T, V, len(names))
    explore(ctx, fn, mods())


def network(ctx, layouts):
    """The table of a network's result: the samples of every node."""
    def fn(vals):
        from yaocptool.methods.base.distributed_optimization_result import DistibutedOptimizationResult
        from yaocptool.methods.base.optimizationresult import OptimizationResult
        want, results, errors = {}, {}, {}
        for q, layout in enumerate(layouts):
            ds = new()
            for e, (k, T) in layout.items():
                names = ["n%d_%s%d" % (q, e, i) for i in range(k)]
                ds.create_entry(e, size=k, names=list(names))
                V = [vals("%d%sv%d" % (q, e, j), k) for j in range(len(T))]
                put(ds, e, [DM(t) for t in T], V, "row")
                for i in range(k):
                    want[e, names[i]] = (T, [v[i] for v in V])
            r = OptimizationResult()
            r._dataset = ds
            r.to_dataset = lambda ds=ds: ds
            results[q] = r
            errors[q] = vals("err%d" % q, 2)
        with arrays():
            res = DistibutedOptimizationResult(results=results, objective=0.0, number_of_iterations={}, times={}, errors=errors)
            df = res.as_dataframe()
        have = [tuple(c) for c in df.columns]
        ctx.require("columns", sorted(have) == sorted(want), "columns %s instead of %s" % (have, sorted(want)))
        if sorted(have) == sorted(want):
            for (e, n), (T, V) in want.items():
                table(ctx, "network", df[[(e, n)]], {e: ([n], T, V)})
    explore(ctx, fn, mods())


def scenarios(tier):
    out = [Scenario("entries", entries), Scenario("refused data", refuse), Scenario("never filled entry", empty),
           Scenario("copy of data set", copies, kind="dataset"), Scenario("copy of simulation", copies, kind="sim"),
           Scenario("table", frame, layout={"x": (2, [0.0, 0.5, 1.0]), "y": (1, [0.5, 1.0]), "u": (2, [0.0, 0.5])}),
           Scenario("table of one entry", frame, layout={"x": (3, [0.0, 0.5, 2.0, 1.0])}),
           Scenario("table, times apart", frame, layout={"u": (1, [0.25, 3.0]), "x": (2, [1.0, 0.5, 12.0]), "y": (2, [7.0])}),
           Scenario("table, repeated times", frame, layout={"x": (2, [0.0, 0.5, 0.5, 1.0, 1.0]), "y": (1, [0.5, 1.0]), "u": (1, [0.0, 0.5])}),
           Scenario("network table", network, layouts=[{"x": (2, [0.0, 0.5, 1.0]), "u": (1, [0.0, 0.5])}, {"x": (1, [0.5, 1.5]), "y": (1, [1.0])},
                                                       {"u": (2, [2.0])}]),
           Scenario("save", saved, k=2, n=2), Scenario("save one", saved, k=1, n=3),
           Scenario("sort other too", sort, n=2, k=2, how="row", other=True),
           Scenario("sort selected", sort, n=2, k=2, how="list", other=True, some=True)]
    far = [3.0, 10.0, 2.0, 1e4, 0.5, -1.0, 2.0, 11.0, 100.0, 1.0, 20.0, 2.0, 9.5]
    for how in ("one by one", "row"):
        out.append(Scenario("sort many %s" % how, sort, n=len(far), k=2, how=how, times=far))
    for n, k, how in ((1, 1, "row"), (2, 2, "one by one"), (3, 1, "list"), (3, 3, "chunks"), (3, 2, "row")):
        out.append(Scenario("sort n%d k%d %s" % (n, k, how), sort, n=n, k=k, how=how))
    for n1, n2, k, fr in ((1, 1, 1, False), (2, 1, 2, False), (1, 2, 2, True), (2, 1, 1, True)):
        out.append(Scenario("extend %d+%d k%d%s" % (n1, n2, k, " new entry" if fr else ""), extend, n1=n1, n2=n2, k=k, fresh=fr))
    if tier == "thorough":
        for how in ("row", "list", "one by one", "chunks"):
            for k in (1, 2):
                out.append(Scenario("sort n4 k%d %s" % (k, how), sort, n=4, k=k, how=how))
        for n1, n2 in ((2, 2), (3, 1), (1, 3)):
            out.append(Scenario("extend %d+%d" % (n1, n2), extend, n1=n1, n2=n2, k=2))
    return out
