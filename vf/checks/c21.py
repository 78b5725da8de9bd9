"""C21: the distributed augmented Lagrangian solves the network's coupled problem node by node."""
import contextlib

import casadi as ca

from .. import hooks
from ..concolic import explore
from ..core import Structural
from ..ocplib import Traj, collocation_reference, lagrange, radau, u_at
from ..run import Scenario

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "DistributedAugmentedLagrangian.solve (and the bipartite and intermediary-node variants) runs on networks whose "
    "nodes have arbitrary dynamics, algebraic equations and costs; the numerical solver may return any point and any "
    "objective. z3 decides, for each node problem in the order they are solved, that it is the node's own problem with "
    "its inputs free and the running cost increased by nu(t)'r + 1/2 r'diag(mu)r, r being input minus the neighbour's "
    "most recent output (or the neighbour's most recent input minus output) at the same instant; that an intermediary "
    "node's value minimises its relaxed cost; that after the sweeps multipliers become nu + mu*r and penalties follow "
    "the selected rule; and, forking on the outcomes of the tests, that sweeps end on the objective test or the limit "
    "and outer iterations exactly when every violation is below the tolerance or the limit is reached.")
BOUNDS = "2..4 nodes, edges of 1..2 variables, 1 state per node, degree 1..2 (control degree = degree), 1..2 elements, up to 2 outer and 2 inner iterations"
ASSUMPTIONS = ["the numerical solver may return any point and reports success", "worker processes behave as the node they hold (erised is replaced by an in-process stand-in)",
               "collocation transcription is C01..C04"]
ABS_TOL, INNER_TOL, BETA, BETA_DEC, MU_MAX, GAMMA, DEC = 0.6, 0.2, 3.0, 2.0, 7.0, 1.25, 0.5


def mods():
    import yaocptool.methods.augmented_lagrangian as a
    import yaocptool.methods.base.solutionmethodsbase as b
    import yaocptool.methods.network.distributedaugmetedlagrangian as c
    import yaocptool.methods.network.intermediary_node_solution_method as d
    return [a, b, c, d]


class Member:
    """A node: problem with `nin` inputs, `nout` outputs and one own control."""

    def __init__(self, ctx, i, nin, nout, guess=False, first_own=True):
        from yaocptool.modelling import OptimalControlProblem, SystemModel
        self.i, self.nin, self.nout = i, nin, nout
        m = SystemModel("m%d" % i)
        self.x = m.create_state("x%d" % i, 1)
        self.out = m.create_algebraic_variable("out%d" % i, nout) if nout else SX(0, 1)
        if first_own:
            self.own = m.create_control("u%d" % i, 1)
        self.inp = m.create_control("in%d" % i, nin) if nin else SX(0, 1)
        if not first_own:
            self.own = m.create_control("u%d" % i, 1)
        self.t = m.t
        k = 200 * (i + 1)
        args = [m.t, self.x, self.out, self.own, self.inp]
        self.ode = ctx.ufv(k, 1, *args)
        self.alg = ctx.ufv(k + 20, nout, *args)
        m.include_equations(ode=self.ode)
        if nout:
            m.include_equations(alg=self.alg)
        self.L = ctx.uf(k + 40, *args)
        self.V = ctx.uf(k + 41, self.x, SX(0.5))
        self.t0, self.tf = 0.25, 1.75
        self.x0 = DM([0.3 + 0.2 * i])
        pr = OptimalControlProblem(m, name="p%d" % i, x_0=self.x0, t_0=self.t0, t_f=self.tf)
        pr.L, pr.V = self.L, self.V
        self.xb = (DM([-2.1 - 0.1 * i]), DM([2.3 + 0.1 * i]))
        pr.x_min, pr.x_max = self.xb
        self.bounds = {}
        c = 0
        for v in [self.own] + list(self.inp.nz) + list(self.out.nz):
            self.bounds[v.name()] = (-2.5 - 0.07 * c - 0.3 * i, 2.4 + 0.09 * c + 0.2 * i)
            c += 1
        B = lambda vec, s: DM([self.bounds[vec[q].name()][s] for q in range(vec.numel())])  # noqa: E731
        pr.u_min, pr.u_max = B(m.u, 0), B(m.u, 1)
        pr.y_min, pr.y_max = B(m.y, 0), B(m.y, 1)
        self.guess = {}
        if guess:
            for q, v in enumerate(list(m.y.nz) + list(m.u.nz)):
                self.guess[v.name()] = 0.11 * (q + 1) + 0.5 * i
            pr.y_guess = DM([self.guess[v.name()] for v in m.y.nz])
            pr.u_guess = DM([self.guess[v.name()] for v in m.u.nz])
        self.model, self.problem = m, pr


class Term:
    """One relaxed equation of a node: left minus right, each 'own' (a variable of
    the node) or a list of (member, name) whose latest values are averaged."""

    def __init__(self, var, sign, others, edge):
        self.var, self.sign, self.others, self.edge = var, sign, others, edge


class Case:
    """The network, what it is meant to solve, and the replay of the algorithm."""

    def __init__(self, ctx, members, edges, d, N, inter=False, jacobi=False, guess=False, own_first=True):
        from yaocptool.modelling import Network
        self.ctx, self.d, self.N = ctx, d, N
        nin, nout = [0] * members, [0] * members
        self.pairs = []             # (producer, output index, consumer, input index), grouped by call
        for a, b, n, *swap in edges:
            # swap "y"/"u": that side's variables are connected in reverse order
            ys, us = list(range(nout[a], nout[a] + n)), list(range(nin[b], nin[b] + n))
            if "y" in swap:
                ys.reverse()
            if "u" in swap:
                us.reverse()
            self.pairs.append([(a, y, b, u) for y, u in zip(ys, us)])
            nout[a] += n
            nin[b] += n
        self.m = [Member(ctx, i, nin[i], nout[i], guess, own_first) for i in range(members)]
        self.net = Network(intermediary_nodes=inter)
        self.nodes = [self.net.create_node(name="n%d" % q.i, model=q.model, problem=q.problem) for q in self.m]
        self.dummies = []           # (producer, names out, consumer, names in)
        for grp in self.pairs:
            a, b = grp[0][0], grp[0][2]
            y = ca.vertcat(*[self.m[a].out[g[1]] for g in grp])
            u = ca.vertcat(*[self.m[b].inp[g[3]] for g in grp])
            self.net.connect(y, u, self.nodes[a], self.nodes[b])
        self.keys = {n: k for k, n in enumerate(self.nodes)}
        self.terms = {k: [] for k in range(members)}
        self.inter = inter
        if inter:
            extra = [n for n in self.net.nodes if n not in self.keys]
            if len(extra) != len(self.pairs):
                raise Structural("%d intermediary nodes for %d connections" % (len(extra), len(self.pairs)))
            # which connection each one serves follows from its edges
            for n in extra:
                pr, su = list(self.net.graph.pred[n]), list(self.net.graph.succ[n])
                if len(pr) != 1 or len(su) != 1:
                    raise Structural("an intermediary node has %d inputs and %d outputs" % (len(pr), len(su)))
                key = "d%d" % len(self.dummies)
                self.keys[n] = key
                ins = self.net.graph.edges[pr[0], n]
                outs = self.net.graph.edges[n, su[0]]
                src = [v.name() for v in SX(ins["y"]).nz]
                dst = [v.name() for v in SX(outs["u"]).nz]
                self.dummies.append((key, self.keys[pr[0]], src, self.keys[su[0]], dst))
                self.terms[key] = []
            served = sorted((a, tuple(s), b, tuple(t)) for _, a, s, b, t in self.dummies)
            want = sorted((g[0][0], tuple(self.m[q[0]].out[q[1]].name() for q in g), g[0][2],
                           tuple(self.m[q[2]].inp[q[3]].name() for q in g)) for g in self.pairs)
            if served != want:
                raise Structural("intermediary nodes join %s instead of %s" % (served, want))
        for n in self.net.nodes:
            k = self.keys[n]
            if isinstance(k, str):
                continue
            me = self.m[k]
            for grp in self.pairs:
                for a, o, b, e in grp:
                    edge = (a, o, b, e)
                    if b == k:
                        nm = me.inp[e].name()
                        oth = [(a, self.m[a].out[o].name())] if not inter else [self._dummy(self.m[a].out[o].name(), nm)]
                        if jacobi:
                            oth = oth + [(k, nm)]
                        self.terms[k].append(Term(me.inp[e], 1, oth, edge))
                    if a == k:
                        nm = me.out[o].name()
                        oth = [(b, self.m[b].inp[e].name())] if not inter else [self._dummy(nm, self.m[b].inp[e].name())]
                        if jacobi:
                            oth = oth + [(k, nm)]
                        self.terms[k].append(Term(me.out[o], -1, oth, edge))
        self.last = {}              # key -> {name: [[SX per point] per element]}

    def _dummy(self, src, dst):
        for key, _, s, _, t in self.dummies:
            for q, (x, y) in enumerate(zip(s, t)):
                if x == src and y == dst:
                    return (key, q)
        raise Structural("no intermediary node for %s -> %s" % (src, dst))

    def value(self, key, name, k, j):
        """Latest value of a variable at point j of element k."""
        if key in self.last:
            return self.last[key][name][k][j]
        if isinstance(key, str):
            return SX(0)
        return SX(self.m[key].guess.get(name, 0.0))

    def external(self, term, k):
        """Interpolation values over element k of what the variable is compared with."""
        out = []
        for j in range(self.d):
            v = [self.value(a, b, k, j) for a, b in term.others]
            out.append(sum(v, SX(0)) / len(v))
        return out


class Ref:
    """The problem of one node for given multipliers, penalties and neighbours (ocplib interface)."""

    def __init__(self, me, terms, d):
        self.x, self.nx, self.t, self.positive = me.x, 1, me.t, False
        self.t0, self.tf = me.t0, me.tf
        self.y, self.ny = me.out, me.nout
        self.u = ca.vertcat(me.own, me.inp)
        self.nu = self.u.numel()
        self.unames = [self.u[i].name() for i in range(self.nu)]
        self.xb = me.xb
        bd = lambda vec: tuple(DM([me.bounds[vec[q].name()][s] for q in range(vec.numel())]) for s in (0, 1))  # noqa: E731
        self.yb, self.ub = bd(self.y), bd(self.u)
        nr = len(terms)
        self.mu = SX.sym("mu_ref", nr)
        self.nup, self.ext = SX.sym("nu_ref", nr, d), SX.sym("ext_ref", nr, d)
        self.tk, self.h_el = SX.sym("tk"), SX.sym("h_el")
        B = lagrange(radau(d), (me.t - self.tk) / self.h_el)
        pol = lambda par, i: sum((B[j] * par[i, j] for j in range(d)), SX(0))  # noqa: E731
        self.L = me.L
        for i, q in enumerate(terms):
            r = q.sign * (q.var - pol(self.ext, i))
            self.L = self.L + pol(self.nup, i) * r + self.mu[i] * r * r / 2
        self.V, self.S = me.V, SX(0)
        self.p = self.mu
        self.th = ca.vertcat(ca.vec(self.nup), ca.vec(self.ext), self.tk, self.h_el)
        self.np, self.nth = nr, self.th.numel()
        self.ode, self.alg = me.ode, me.alg
        self.syms = [self.t, self.x, self.y, self.u, self.p, self.th]
        self.h = self.hfinal = self.hinit = SX(0, 1)
        self.g_eq, self.g_ineq, self.delta, self.popt, self.thopt = [], [], None, [], []

    def fun(self, e):
        return ca.Function("ref", self.syms, [e])


class Recorder(hooks.NlpRecorder):
    """Any point, any objective; keeps the order of the calls over all solvers."""

    def __init__(self, vals, fails=()):
        super().__init__()
        self.vals, self.log, self.fails = vals, [], fails

    def solution(self, solver, kw):
        n = len(self.log)
        self.wmaker = lambda s, size: self.vals("w%d" % n, size)
        r = super().solution(solver, kw)
        r["f"] = self.vals("f%d" % n, 1)
        ok = n not in self.fails
        self.log.append((solver, len(solver.calls) - 1, solver.w, r["f"], ok))
        solver.stats = lambda: {"success": ok, "return_status": "Solve_Succeeded" if ok else "Maximum_Iterations_Exceeded",
                                "iter_count": 1, "t_proc_total": 0.0, "t_wall_total": 0.0}
        return r


@contextlib.contextmanager
def watching(log):
    """Logs (solution method, result) of every node solved."""
    from yaocptool.methods import AugmentedLagrangian
    from yaocptool.methods.network.intermediary_node_solution_method import IntermediaryNodeSolutionMethod
    done = []
    for cls in (AugmentedLagrangian, IntermediaryNodeSolutionMethod):
        f = cls.__dict__.get("solve")
        if f is None:
            continue

        def solve(self, *a, _f=f, **k):
            r = _f(self, *a, **k)
            if not log or log[-1][1] is not r:
                log.append((self, r))
            return r
        done.append((cls, f))
        cls.solve = solve
    full = SX.__dict__.get("full")
    SX.full = _full
    try:
        yield
    finally:
        for cls, f in done:
            cls.solve = f
        if full is None:
            del SX.full
        else:
            SX.full = full


def _full(self):
    import numpy
    out = numpy.empty(self.shape, dtype=object)
    for i in range(self.shape[0]):
        for j in range(self.shape[1]):
            out[i, j] = self[i, j]
    return out


def method(jacobi):
    if jacobi:
        from yaocptool.methods.network.bipartite_jacobi_admm import BipartiteJacobiADMM as M
    else:
        from yaocptool.methods.network.distributedaugmetedlagrangian import DistributedAugmentedLagrangian as M
    return M


def run(ctx, members=2, edges=((0, 1, 1),), d=1, N=1, outer=2, inner=1, first=None, rule="constant", inter=False, jacobi=False,
        guess=False, own_first=True, distributed=False, order=None, stop=False, mu0=1.5, fails=(), choice=None, improve=False):
    """Replays the real solve() call by call against the definition."""
    tol = ABS_TOL if stop else -1.0

    def fn(vals):
        from yaocptool.methods import DirectMethod
        case = Case(ctx, members, edges, d, N, inter, jacobi, guess, own_first)
        opts = dict(degree=d, finite_elements=N, max_iter_outer=outer, max_iter_inner=inner, max_iter_inner_first=first,
                    abs_tol=tol, inner_loop_tol=INNER_TOL, distributed=distributed,
                    al_options=dict(mu_0=mu0, mu_update_rule=rule, beta=BETA, beta_decrease=BETA_DEC, mu_max=MU_MAX, gamma=GAMMA,
                                    mu_min_error_decrease=DEC, only_update_if_improve=improve))
        kw = {}
        if choice:
            import random
            random.seed(3)
            opts["block_choice_method"] = choice
        if order is not None:
            kw["blocks"] = {i: [n for n in case.net.nodes if _label(case, n) in blk] for i, blk in enumerate(order)}
        dal = method(jacobi)(case.net, DirectMethod, dict(degree=d, finite_elements=N, degree_control=d, discretization_scheme="collocation",
                                                          initial_guess_heuristic="problem_info"), options=opts, **kw)
        if hasattr(dal, "_print_nodes_errors"):
            dal._print_nodes_errors = lambda *a, **k: None      # log lines only
        if not hasattr(dal, "blocks"):
            raise Structural("the method has no blocks")
        blocks = [[case.keys[n] for n in b] for b in dal.blocks.values()]
        check_blocks(ctx, case, blocks, order)
        rec, log = Recorder(vals, fails), []
        with hooks.active(nlpsol=rec, qpsol=rec, integrator=hooks.integrator_for(ctx)), watching(log):
            res = dal.solve()
        replay(ctx, case, dal, rec, log, res, blocks, d, N, outer, inner, first, rule, tol, mu0, distributed, stop, choice, improve)
    explore(ctx, fn, mods(), max_paths=300)


def _label(case, node):
    return case.keys[node]


def check_blocks(ctx, case, blocks, order):
    """Every node in exactly one block; connected nodes in different ones."""
    flat = [k for b in blocks for k in b]
    ctx.require("every node is in one block", sorted(map(str, flat)) == sorted(map(str, case.keys.values())), "%s" % blocks)
    if order is None:
        bad = [(case.keys[a], case.keys[b]) for a, b in case.net.graph.edges
               if any(case.keys[a] in blk and case.keys[b] in blk for blk in blocks)]
        ctx.require("connected nodes are not solved together", not bad, "%s" % bad)


def replay(ctx, case, dal, rec, log, res, blocks, d, N, outer, inner, first, rule, tol, mu0, distributed, stop, choice=None, improve=False):
    sizes = len(case.keys)
    byproblem = {id(n.problem): case.keys[n] for n in case.nodes}
    byproblem.update({id(n.problem): k for n, k in case.keys.items() if isinstance(k, str)})
    if not log or len(log) % sizes:
        raise Structural("%d node solutions for %d nodes" % (len(log), sizes))
    refs = {k: Ref(case.m[k], case.terms[k], d) for k in range(len(case.m))}
    mu = {k: [SX(mu0)] * len(case.terms[k]) for k in refs}
    nu = {k: [[[SX(0)] * d for _ in range(N)] for _ in case.terms[k]] for k in refs}
    for key, _, src, _, _ in case.dummies:
        mu[key] = [SX(mu0)] * (2 * len(src))
        nu[key] = [[[SX(0)] * d for _ in range(N)] for _ in range(2 * len(src))]
    sweeps = len(log) // sizes
    it = iter(range(sweeps))
    ncall, done, errors, lasterr, lastext = 0, False, {}, {}, {}
    objective, sweep = {}, -1
    o = 0
    while sweep + 1 < sweeps:
        if done or o >= outer:
            ctx.require("stops", False, "a node was solved after the last iteration")
            return
        limit = max(inner, first) if o == 0 and first is not None else inner
        prev = None
        for s in range(limit):
            sweep = next(it, None)
            if sweep is None:
                ctx.require("sweeps", False, "the solution ended after %d sweeps" % sweeps)
                return
            seen = []
            for sm, r in log[sweep * sizes:(sweep + 1) * sizes]:
                k = byproblem.get(id(sm.problem))
                seen.append(k)
                if isinstance(k, str):
                    dummy(ctx, case, k, sm, r, nu[k], mu[k], d, N, o, s)
                    objective[k] = SX(0)
                else:
                    if ncall >= len(rec.log):
                        raise Structural("a node returned a result without solving its problem")
                    node(ctx, case, k, sm, r, rec.log[ncall], refs[k], nu[k], mu[k], d, N, "o%d s%d n%s" % (o, s, k))
                    if ncall not in rec.fails:
                        objective[k] = SX(rec.log[ncall][3])
                    ncall += 1
            ctx.require("each sweep solves every node once", sorted(map(str, seen)) == sorted(map(str, case.keys.values())), "%s" % seen)
            blk = [i for k in seen for i, b in enumerate(blocks) if k in b]
            if choice in (None, "cyclic"):
                ctx.require("blocks in order", blk == sorted(blk), "%s" % seen)
            else:
                ctx.require("block after block", sum(a != b for a, b in zip(blk, blk[1:])) == len(set(blk)) - 1, "%s" % seen)
            total = sum((objective[k] for k in objective), SX(0))
            more = sweep + 1 < sweeps
            if prev is not None and s + 1 < limit:
                lhs, rhs = total, (1 - INNER_TOL) * prev
                # the next sweep belongs to this outer iteration iff the objective decreased enough
                if bool(lhs > rhs):
                    break
            prev = total
            if s + 1 < limit and not more:
                ctx.require("sweeps", False, "sweeps ended before the objective test")
                return
        errors = update(ctx, case, nu, mu, rule, d, N, lasterr, lastext, blocks, improve)
        worst = None
        for e in errors.values():
            for q in e:
                worst = q if worst is None else ca.fmax(worst, q)
        lasterr = errors
        o += 1
        if stop:
            more = sweep + 1 < sweeps
            if more:
                ctx.implies("going on after iteration %d" % o, [], [(worst, SX(tol), 0.0, None)], eps=2e-3, twin=False)
            elif o < outer:
                ctx.implies("stopping after iteration %d" % o, [], [(worst, SX(tol), None, 0.0)], eps=1e-6, twin=False)
                done = True
    ctx.require("iterations", done or o == outer, "%d of %d outer iterations" % (o, outer))
    result(ctx, case, res, log, errors, objective, o, sweeps, len(blocks))


def trajectories(case, k, r, R, d, N):
    me = case.m[k]
    T = Traj()
    xn, un, yn = list(r.x_names), list(r.u_names), list(r.y_names)
    if sorted(un) != sorted(R.unames) or sorted(yn) != sorted(v.name() for v in R.y.nz):
        raise Structural("node %d has controls %s and algebraics %s" % (k, un, yn))
    T.ui = [xn.index(me.x.name())]
    T.extra = [i for i in range(len(xn)) if i not in T.ui]
    pu, py = [un.index(q) for q in R.unames], [yn.index(v.name()) for v in R.y.nz]
    T.X = [[SX(v) for v in el] for el in r.x_data["values"]]
    T.Y = [[SX(v)[py] for v in el] for el in r.y_data["values"]]
    T.U = [[SX(v)[pu] for v in el] for el in r.u_data["values"]]
    T.N, T.d, T.dc, T.scheme, T.h = N, d, d, "collocation", (me.tf - me.t0) / N
    T.x0 = SX(me.x0)
    return T


def node(ctx, case, k, sm, r, entry, R, nu, mu, d, N, tag):
    solver, call, w, fval, good = entry
    me, terms = case.m[k], case.terms[k]
    T = last = trajectories(case, k, r, R, d, N)
    if not isinstance(w, SX):
        # replay: the claim is about every point of the problem, so its point is free again
        w = SX.sym("w", w.numel())
        free = sm.ocp_solver.create_optimization_result(dict(r.raw_solution_dict, x=w), p=r.p, theta=r.theta, x_0=r.x_0)
        T = trajectories(case, k, free, R, d, N)
    nlp = hooks.Nlp(solver, w=w, call=call)
    T.P = ca.vertcat(*mu)
    ext = [[case.external(q, e) for e in range(N)] for q in terms]
    T.TH = {e: ca.vertcat(*[nu[i][e][j] for j in range(d) for i in range(len(terms))],
                          *[ext[i][e][j] for j in range(d) for i in range(len(terms))], SX(me.t0 + e * T.h), SX(T.h)) for e in range(N)}
    rows = collocation_reference(R, T)
    ctx.same_set("%s problem" % tag, nlp.rows(), rows)
    obj = ca.Function("V", [me.x], [me.V])(T.X[-1][-1][T.ui])
    if T.extra:
        obj = obj + T.X[-1][-1][T.extra[0]]
    ctx.implies("%s objective" % tag, rows, [(nlp.f, obj, 0, 0)])
    taus = radau(d)
    vals = {}
    for q, nm in enumerate(R.unames):
        vals[nm] = [[u_at(last, e, taus[j])[q] for j in range(d)] for e in range(N)]
    for q in range(R.ny):
        vals[R.y[q].name()] = [[last.Y[e][j][q] for j in range(d)] for e in range(N)]
    if good:
        case.last[k] = vals


def dummy(ctx, case, key, sm, r, nu, mu, d, N, o, s):
    """An intermediary node's value minimises nu1(v-y)+mu1/2(v-y)^2+nu2(u-v)+mu2/2(u-v)^2."""
    _, a, src, b, dst = next(q for q in case.dummies if q[0] == key)
    n = len(src)
    vals = {q: [[None] * d for _ in range(N)] for q in range(n)}
    grad = []
    for e in range(N):
        if len(r.u_data["values"][e]) != d or len(r.y_data["values"][e]) != d:
            raise Structural("an intermediary node returned %d values per element" % len(r.u_data["values"][e]))
        for j in range(d):
            v, v2 = SX(r.u_data["values"][e][j]), SX(r.y_data["values"][e][j])
            if v.numel() != n or v2.numel() != n:
                raise Structural("an intermediary node of %d variables returned %d" % (n, v.numel()))
            ctx.equal("o%d s%d %s passes its input on" % (o, s, key), v, v2)
            for q in range(n):
                y, u = case.value(a, src[q], e, j), case.value(b, dst[q], e, j)
                grad.append(nu[q][e][j] + mu[q] * (v[q] - y) - nu[n + q][e][j] - mu[n + q] * (u - v[q]))
                vals[q][e][j] = v[q]
    ctx.equal("o%d s%d %s minimises its cost" % (o, s, key), ca.vertcat(*grad), SX.zeros(len(grad)))
    case.last[key] = vals


def update(ctx, case, nu, mu, rule, d, N, lasterr, lastext, blocks, improve=False):
    """Multipliers, penalties and violations after the sweeps, in place.  With `improve` a
    multiplier moves only when the violation of its equation decreased."""
    errors, ext_all = {}, {}
    for key in nu:
        res = []
        if isinstance(key, str):
            _, a, src, b, dst = next(q for q in case.dummies if q[0] == key)
            n = len(src)
            V = lambda q, e, j: case.value(key, q, e, j)  # noqa: E731
            res = [[[V(q, e, j) - case.value(a, src[q], e, j) for j in range(d)] for e in range(N)] for q in range(n)]
            res += [[[case.value(b, dst[q], e, j) - V(q, e, j) for j in range(d)] for e in range(N)] for q in range(n)]
            ext_all[key] = [(a, [[case.value(a, src[q], e, j) for j in range(d)] for e in range(N)]) for q in range(n)]
        else:
            ext_all[key] = []
            for q in case.terms[key]:
                ext = [case.external(q, e) for e in range(N)]
                res.append([[q.sign * (case.value(key, q.var.name(), e, j) - ext[e][j]) for j in range(d)] for e in range(N)])
                if q.sign == 1:
                    src = q.others[0]
                    ext_all[key].append((src[0], [[case.value(src[0], src[1], e, j) for j in range(d)] for e in range(N)]))
        errors[key] = []
        for i, r in enumerate(res):
            m = SX(0)
            for e in range(N):
                for j in range(d):
                    m = ca.fmax(m, ca.fabs(r[e][j]))
            errors[key].append(m)
            if improve and lasterr and not bool(m < lasterr[key][i]):
                continue
            for e in range(N):
                for j in range(d):
                    nu[key][i][e][j] = nu[key][i][e][j] + mu[key][i] * r[e][j]
    if rule == "bounded-increase":
        for key in mu:
            mu[key] = [ca.fmin(MU_MAX, q * BETA) for q in mu[key]]
    elif rule == "primal" and lasterr:
        for key in mu:
            for i in range(len(mu[key])):
                if bool(errors[key][i] > DEC * lasterr[key][i]):
                    mu[key][i] = ca.fmin(MU_MAX, mu[key][i] * BETA)
    elif rule == "primal-dual":
        r = None
        for e in errors.values():
            for q in e:
                r = q if r is None else ca.fmax(r, q)
        s = None
        blk = {k: i for i, b in enumerate(blocks) for k in b}
        for key in ext_all:
            for i, (src, v) in enumerate(ext_all[key]):
                if key not in lastext or blk[src] < blk[key]:
                    continue
                for e in range(N):
                    for j in range(d):
                        c = ca.fabs(v[e][j] - lastext[key][i][1][e][j])
                        s = c if s is None else ca.fmax(s, c)
        if s is None or bool(r > GAMMA * s):
            f = BETA
        elif bool(s > GAMMA * r):
            f = 1 / BETA_DEC
        else:
            f = 1.0
        for key in mu:
            mu[key] = [q * f for q in mu[key]]
        lastext.update(ext_all)
    return errors


def result(ctx, case, res, log, errors, objective, o, sweeps, nblocks):
    got = {case.keys[n]: r for n, r in res.results.items()}
    last = {}
    for sm, r in log:
        for n, k in case.keys.items():
            if n.problem is sm.problem and r.success:
                last[k] = r
    ctx.require("results of every node", set(got) == set(last), "%s" % sorted(map(str, got)))
    ctx.require("the results are the last ones", all(got[k] is last[k] for k in last if k in got), "an earlier result is returned")
    ctx.equal("objective", SX(res.objective), sum(objective.values(), SX(0)))
    ctx.require("outer iterations", res.number_of_iterations["outer"] == o - 1, "%s for %d" % (res.number_of_iterations, o))
    ctx.require("solved blocks", res.number_of_iterations["block_iterations"] == sweeps * nblocks, "%s" % res.number_of_iterations)
    table = res.constraint_violations
    rows = []
    for i in range(table.shape[0]):
        rows.append([v for v in table.iloc[i].tolist() if isinstance(v, (SX, DM)) or v == v])
    want = sorted(len(e) for e in errors.values())
    ctx.require("violations", sorted(len(r) for r in rows) == want, "%s instead of %s" % ([len(r) for r in rows], want))
    tot = lambda it: sum((SX(v) for r in it for v in r), SX(0))  # noqa: E731
    ctx.equal("reported violations", tot(rows), tot(errors.values()))


def scenarios(tier):
    chain = ((0, 1, 1), (1, 2, 1))
    ring = ((0, 1, 1), (1, 0, 1))
    out = [
        Scenario("pair", run, stop=True),
        Scenario("pair two variables", run, edges=((0, 1, 2),), d=2, N=2, rule="bounded-increase"),
        Scenario("pair two connections", run, edges=((0, 1, 1), (0, 1, 1)), d=2, N=1),
        Scenario("pair outputs reversed", run, edges=((0, 1, 2, "y"),), d=2, N=1),
        Scenario("pair inputs reversed", run, edges=((0, 1, 2, "u"), (1, 0, 2, "y")), d=1, N=1),
        Scenario("bipartite reversed", run, jacobi=True, edges=((0, 1, 2, "u"), (1, 0, 2, "y")), d=2, N=1),
        Scenario("intermediary reversed", run, inter=True, edges=((0, 1, 2, "u"), (1, 0, 2, "y")), d=1, N=1),
        Scenario("pair guesses", run, guess=True, d=2, N=2, outer=1),
        Scenario("inputs before controls", run, own_first=False, d=2, N=1),
        Scenario("both ways", run, edges=ring, d=2, N=1),
        Scenario("chain", run, members=3, edges=chain, d=1, N=2),
        Scenario("chain against the flow", run, members=3, edges=((2, 1, 1), (1, 0, 2)), d=2, N=1),
        Scenario("fan", run, members=4, edges=((0, 1, 1), (0, 2, 1), (0, 3, 1)), d=1, N=1),
        Scenario("fan in", run, members=3, edges=((0, 2, 1), (1, 2, 1)), d=2, N=1),
        Scenario("triangle", run, members=3, edges=((0, 1, 1), (1, 2, 1), (2, 0, 1)), d=1, N=1),
        Scenario("given blocks", run, members=3, edges=chain, d=1, N=1, order=((0, 1), (2,))),
        Scenario("sampled blocks", run, members=3, edges=chain, d=1, N=1, order=((0,), (1,), (2,)), choice="sample", inner=2, outer=2),
        Scenario("sampled blocks of two", run, members=4, edges=((0, 1, 1), (1, 2, 1), (3, 2, 1)), d=1, N=1, choice="sample", outer=3),
        Scenario("cyclic blocks", run, members=3, edges=chain, d=1, N=1, order=((2,), (0,), (1,)), choice="cyclic"),
        Scenario("sweeps", run, inner=2, outer=2),
        Scenario("first sweeps", run, inner=1, first=3, outer=2),
        Scenario("primal", run, rule="primal", outer=3),
        Scenario("improved", run, improve=True, outer=3),
        Scenario("least sweeps", run, inner=2, first=1, outer=1),
        Scenario("primal dual", run, rule="primal-dual", outer=3),
        Scenario("primal dual backwards", run, rule="primal-dual", outer=4, order=((1,), (0,))),
        Scenario("primal dual together", run, rule="primal-dual", outer=3, order=((0, 1),)),
        Scenario("primal dual chain", run, members=3, edges=chain, rule="primal-dual", outer=2),
        Scenario("failures", run, members=3, edges=chain, inner=2, outer=1, fails=(2, 3)),
        Scenario("failures later", run, inner=1, outer=3, fails=(2,)),
        Scenario("workers", run, distributed=True, members=3, edges=chain, d=2, N=1),
        Scenario("workers primal dual", run, distributed=True, rule="primal-dual", outer=2),
        Scenario("workers increase", run, distributed=True, rule="bounded-increase", outer=2, stop=True),
        Scenario("bipartite", run, jacobi=True, d=2, N=1),
        Scenario("bipartite two variables", run, jacobi=True, edges=((0, 1, 2),), own_first=False, d=2, N=1),
        Scenario("bipartite chain", run, jacobi=True, members=3, edges=chain, own_first=False, rule="bounded-increase"),
        Scenario("intermediary", run, inter=True, d=2, N=2),
        Scenario("intermediary first", run, inter=True, d=2, N=1, order=(("d0",), (0, 1)), stop=True),
        Scenario("intermediary two variables", run, inter=True, edges=((0, 1, 2),), d=2, N=2, order=(("d0",), (0, 1)), rule="bounded-increase"),
        Scenario("intermediary chain", run, inter=True, members=3, edges=chain, d=1, N=1, order=(("d0", 2), (1, 0), ("d1",))),
        Scenario("intermediary primal", run, inter=True, rule="primal", outer=3, order=(("d0",), (0, 1))),
    ]
    if tier == "thorough":
        out += [
            Scenario("improved intermediary", run, improve=True, inter=True, outer=3, order=(("d0",), (0, 1))),
            Scenario("chain d2 N2", run, members=3, edges=chain, d=2, N=2),
            Scenario("chain d3", run, members=3, edges=((0, 1, 2), (1, 2, 1)), d=3, N=1, own_first=False),
            Scenario("four", run, members=4, edges=((0, 1, 1), (1, 2, 1), (2, 3, 1), (3, 0, 1)), d=1, N=2, rule="bounded-increase"),
            Scenario("three iterations", run, d=2, N=1, outer=3, inner=2),
            Scenario("bipartite ring", run, jacobi=True, members=4, edges=((0, 1, 1), (1, 2, 1), (2, 3, 1), (3, 0, 1)), d=2, N=1, outer=1),
            Scenario("workers ring", run, distributed=True, members=3, edges=((0, 1, 1), (1, 2, 1), (2, 0, 1)), d=2, N=1, rule="bounded-increase"),
            Scenario("intermediary ring", run, inter=True, members=3, edges=((0, 1, 1), (1, 2, 1), (2, 0, 1)), d=1, N=2),
        ]
    return out
