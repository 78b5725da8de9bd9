"""C15: a network is the composition of its nodes and connections."""
import casadi as ca

from .. import hooks
from ..concolic import explore
from ..core import zero
from ..modlib import Ref, check_model, els, make, vcat
from ..run import Scenario
from .c11 import Intg
from .c13 import G, PRef, PRef_copy, check, start

SX, DM = ca.SX, ca.DM
EXPLANATION = (
    "Networks are built through the public interface from nodes whose models, costs, constraints and bounds are "
    "arbitrary functions and values. A separate description composes the nodes over one time and adds one equation "
    "u = y per connection. z3 decides, for all functions and values, that the composed model and problem have exactly "
    "those equations, costs, constraints and bounds (each with its own variable); that splitting every connection by an "
    "intermediary node leaves the same solutions, costs and bounds for the original variables (implications in both "
    "directions); that the initial conditions of the nodes are the end state of the coupled simulation; and that nodes "
    "are unchanged by it.")
BOUNDS = "networks of 1..4 nodes, 0..5 connections (chains, cycles, stars, several variables per connection, isolated nodes)"
ASSUMPTIONS = ["an input is driven by at most one connection"]


def sym_in(s, lst):
    return any(ca.is_equal(s, q) for q in lst)


def align(r, m):
    """The description in the order the model chose for its variables."""
    for kind, attr, along in (("x", "x", ["ode"]), ("y", "y", []), ("u", "u", ["uexpr"]), ("p", "p", []), ("th", "theta", []),
                              ("upar", "u_par", [])):
        want, have = getattr(r, kind), els(getattr(m, attr))
        if len(want) != len(have) or not all(sym_in(s, want) for s in have):
            continue
        perm = [[ca.is_equal(s, q) for q in want].index(True) for s in have]
        for k in [kind] + along:
            cur = getattr(r, k)
            setattr(r, k, [cur[i] for i in perm])


# name: (node sizes, connections (node, kind, index, node, input index))
NETS = {
    "pair": ([dict(), dict()], [(0, "y", 0, 1, 0)]),
    "pair two variables": ([dict(ny=2), dict(nu=3)], [(0, "y", 1, 1, 0), (0, "y", 0, 1, 2)]),
    "cycle": ([dict(), dict()], [(0, "y", 0, 1, 0), (1, "y", 0, 0, 0)]),
    "chain": ([dict(), dict(nu=2), dict()], [(0, "y", 0, 1, 1), (1, "y", 0, 2, 0)]),
    "star": ([dict(ny=2), dict(), dict()], [(0, "y", 0, 1, 0), (0, "y", 0, 2, 0)]),
    "join": ([dict(), dict(), dict(nu=2)], [(1, "y", 0, 2, 0), (0, "y", 0, 2, 1)]),
    "state output": ([dict(ny=0), dict()], [(0, "x", 1, 1, 0)]),
    "isolated": ([dict(), dict(), dict()], [(0, "y", 0, 2, 0)]),
    "single": ([dict()], []),
    "ring": ([dict(nx=1), dict(nx=1), dict(nx=1), dict(nx=1)], [(i, "y", 0, (i + 1) % 4, 0) for i in range(4)]),
    "vector": ([dict(ny=3), dict(nu=3)], [(0, "y", 2, 1, 0), (0, "y", 0, 1, 2)]),
    "vector mixed": ([dict(ny=2), dict(nu=3, ny=2)], [(0, "y", 1, 1, 2), (0, "x", 0, 1, 0), (1, "y", 1, 0, 0)]),
    "static nodes": ([dict(nx=0), dict(nx=1)], [(0, "y", 0, 1, 0), (1, "y", 0, 0, 0)]),
}


def sizes(s):
    d = dict(nx=2, ny=1, nu=1, np=1, nth=1)
    d.update(s)
    return d


def link(N, M, cons, net, ref):
    """Connects one variable after the other; "vector" networks: all of a pair of nodes at once."""
    groups = []
    for c in cons:
        if net.startswith("vector") and groups and (groups[-1][0][0], groups[-1][0][3]) == (c[0], c[3]):
            groups[-1].append(c)
        else:
            groups.append([c])
    for g in groups:
        a, b = g[0][0], g[0][3]
        y, u = [getattr(ref(M[a]), c[1])[c[2]] for c in g], [ref(M[b]).u[c[4]] for c in g]
        N.connect(y=vcat(y) if len(g) > 1 else y[0], u=vcat(u) if len(g) > 1 else u[0], node1=M[a][0], node2=M[b][0])


def mk_models(ctx, net, **kw):
    from yaocptool.modelling import SystemModel  # noqa: F401
    from yaocptool.modelling.network.network import Network
    nd, cons = NETS[net]
    N = Network(name="net", **kw)
    M = []
    for k, s in enumerate(nd):
        m, r = make(ctx, 100 + 100 * k, "ABCD"[k], **sizes(s))
        M.append((N.create_node(name="node" + "ABCD"[k], model=m), m, r))
    link(N, M, cons, net, lambda q: q[2])
    return N, M, cons


def mk_problems(ctx, net, t0=1.0, tf=3.0, **kw):
    from yaocptool.modelling.network.network import Network
    nd, cons = NETS[net]
    N = Network(name="net", **kw)
    M = []
    for k, s in enumerate(nd):
        m, pr, r = start(ctx, 100 + 100 * k, "ABCD"[k], t0=t0, tf=tf, **sizes(s))
        M.append((N.create_node(name="node" + "ABCD"[k], problem=pr), pr, r))
    link(N, M, cons, net, lambda q: q[2].m)
    return N, M, cons


def compose_m(M, cons, t, tau):
    r = Ref()
    r.t, r.tau = t, tau
    ends = [(getattr(M[a][2], kind)[i], M[b][2].u[j]) for a, kind, i, b, j in cons]
    for q in M:
        r.absorb(q[2].copy())
    for y, u in ends:
        r.connect(u, y)
    return r


def compose_p(M, cons, m):
    r = PRef(Ref())
    r.m.t, r.m.tau = m.t, m.tau
    ends = [(getattr(M[a][2].m, kind)[i], M[b][2].m.u[j]) for a, kind, i, b, j in cons]
    for q in M:
        r.absorb(PRef_copy(q[2]))
    for y, u in ends:
        r.m.connect(u, y)
        for f in ("dlo", "dhi"):
            r.b[u.element_hash()].pop(f, None)
    return r


def model(ctx, net):
    N, M, cons = mk_models(ctx, net)
    m = N.get_model()
    r = compose_m(M, cons, m.t, m.tau)
    align(r, m)
    check_model(ctx, "network", m, r)
    for node, mm, rr in M:
        check_model(ctx, "node %s unchanged" % node.name, mm, rr)
    # asking again, and editing the result, leaves network and nodes alone
    s = SX.sym("extra")
    m.include_parameter(s)
    m.include_equations(alg=s * m.x[0])
    m2 = N.get_model()
    r = compose_m(M, cons, m2.t, m2.tau)
    align(r, m2)
    check_model(ctx, "second", m2, r)
    for _, mm, rr in M:
        if rr.p:
            mm.replace_variable(rr.p[0], 2 * rr.p[0] + 1)
            rr.subs(rr.p[0], 2 * rr.p[0] + 1)
    m3 = N.get_model()
    r = compose_m(M, cons, m3.t, m3.tau)
    align(r, m3)
    check_model(ctx, "after an edit of the nodes", m3, r)


def problem(ctx, net, again=False, **kw):
    N, M, cons = mk_problems(ctx, net, **kw)
    if again:       # asked before, the answer edited, then the nodes edited
        old = N.get_problem()
        old.L = old.L + old.model.x[0] ** 2
        old.x_max = old.x_max + 1
        old.include_time_inequality(old.model.x[0] - 5)
        for k, (_, p, rr) in enumerate(M):
            e = ctx.uf(900 + k, p.model.t, p.model.x, p.model.u)
            p.include_time_inequality(e, when="end")
            rr.gin.append((e, "end"))
            p.L = p.L + e * 2
            rr.L = rr.L + e * 2
            for q in rr.m.x:
                rr.put(q, hi=ctx.arg(q.name() + "_hi2"))
            p.x_max = ca.vertcat(*[rr.get(q, "hi") for q in rr.m.x])
            if rr.m.p:
                p.replace_variable(rr.m.p[0], 2 * rr.m.p[0] + 1)
                rr.subs(rr.m.p[0], 2 * rr.m.p[0] + 1)
                rr.m.subs(rr.m.p[0], 2 * rr.m.p[0] + 1)
    pr = N.get_problem()
    r = compose_p(M, cons, pr.model)
    align(r.m, pr.model)
    check(ctx, "network", pr, r, G)
    ctx.require("horizon", (pr.t_0, pr.t_f) == (M[0][1].t_0, M[0][1].t_f), "horizon [%s, %s]" % (pr.t_0, pr.t_f))
    for node, p, rr in M:
        check(ctx, "node %s unchanged" % node.name, p, rr, G)


def intermediary(ctx, net, when, t0=1.0, tf=3.0):
    """Splitting connections keeps the coupled problem of the original variables."""
    N, M, cons = mk_problems(ctx, net, t0=t0, tf=tf, **(dict(intermediary_nodes=True) if when == "connect" else {}))
    if when == "after":
        N.insert_intermediary_nodes()
    names = [n.name for n in N.nodes]
    ctx.require("nodes kept", all(q[0] in N.nodes for q in M), "nodes %s" % names)
    ids = [n.node_id for n in N.nodes]
    ctx.require("unique ids", len(set(ids)) == len(ids), "ids %s" % ids)
    orig = [q[0] for q in M]
    ctx.require("every connection is split", not any(a in orig and b in orig for a, b in N.connections)
                and all(a in orig or b in orig for a, b in N.connections), "connections %s" % list(N.connections))
    pr = N.get_problem()
    r = compose_p(M, cons, pr.model)
    known = r.m.x + r.m.y + r.m.u + r.m.p + r.m.th
    # the internal variables, as the connections define them
    define = {}
    for e in N.connections:
        for y, u in zip(els(N.connections[e]["y"]), els(N.connections[e]["u"])):
            if not sym_in(u, known):
                define[u.element_hash()] = (u, y)
            elif not sym_in(y, known):
                define[y.element_hash()] = (y, u)
    extra = [v[0] for v in define.values()]
    have = els(pr.model.y)
    new = [s for s in have if not sym_in(s, known)]
    ctx.require("internal variables", len(new) == len(extra) and all(sym_in(s, extra) for s in new),
                "%s besides %s" % (new, extra))
    r2 = r.m.copy()
    align(r2, pr.model)
    ctx.require("variables", [s.element_hash() for s in els(pr.model.x)] == [s.element_hash() for s in r2.x]
                and [s.element_hash() for s in els(pr.model.u)] == [s.element_hash() for s in r2.u]
                and sorted(s.element_hash() for s in have if not sym_in(s, extra)) == sorted(s.element_hash() for s in r.m.y),
                "x=%s y=%s u=%s" % (pr.model.x, pr.model.y, pr.model.u))
    ctx.require("square", pr.model.alg.numel() == len(have), "%d equations for %d variables" % (pr.model.alg.numel(), len(have)))
    rows = zero(pr.model.alg)
    for i, e in enumerate(r.m.alg):
        ctx.implies("connections imply equation %d" % i, rows, [(e, SX(0), 0, 0)])
    dv, dd = vcat([v[0] for v in define.values()]), vcat([v[1] for v in define.values()])
    for i, e in enumerate(els(pr.model.alg)):
        e2 = ca.substitute(e, dv, dd) if define else e
        ctx.implies("equation %d adds nothing" % i, zero(vcat(r.m.alg)), [(e2, SX(0), 0, 0)])
    if r2.ode:
        ctx.equal("dynamics", pr.model.ode, vcat(r2.ode))
    for f in ("L", "V", "S"):
        ctx.equal(f, SX(getattr(pr, f)), getattr(r, f))
    for attr, kind, f, d in (("y_min", "y", "lo", -ca.inf), ("y_max", "y", "hi", ca.inf), ("u_min", "u", "lo", 0), ("u_max", "u", "hi", 0),
                             ("x_min", "x", "lo", 0), ("x_max", "x", "hi", 0), ("x_0", "x", "x0", 0)):
        syms = els(getattr(pr.model, kind))
        if syms:
            ctx.equal(attr, vcat(els(getattr(pr, attr))), vcat([SX(r.get(s, f, d)) for s in syms]))
    ctx.require("horizon", (pr.t_0, pr.t_f) == (t0, tf), "horizon [%s, %s]" % (pr.t_0, pr.t_f))
    for node, p, rr in M:
        check(ctx, "node %s unchanged" % node.name, p, rr, G)


def lookup(ctx):
    """Identifiers are unique; nodes are found by id and name; wrong variables are refused."""
    from yaocptool.modelling.network.network import Network
    from yaocptool.modelling.network.node import Node
    m, r = make(ctx, 100, "A")
    m2, r2 = make(ctx, 200, "B", nu=2)
    m3, r3 = make(ctx, 300, "C")
    N = Network()
    a = Node(node_id=0, name="a", model=m)
    N.include_nodes(a)
    b = N.create_node(name="b", model=m2)
    c = Node(model=m3)
    N.include_nodes([c])
    ids = [n.node_id for n in (a, b, c)]
    ctx.require("unique ids", len(set(ids)) == 3, "ids %s" % ids)
    q = [Node(model=make(ctx, 400, "D")[0]), Node(node_id=0, model=make(ctx, 500, "E")[0]), Node(model=make(ctx, 600, "F")[0])]
    Network(q)
    ctx.require("unique ids in a list", len(set(n.node_id for n in q)) == 3, "ids %s" % [n.node_id for n in q])
    ctx.require("by id", all(N[n.node_id] is n for n in (a, b, c)), "node by id")
    ctx.require("by name", N["a"] is a and N["b"] is b and N[c.name] is c and c.name == "C", "node by name")
    for key, exc in ((99, IndexError), ("zz", KeyError)):
        try:
            N[key]
            ctx.require("missing node", False, "found a node for %r" % (key,))
        except exc:
            pass
    for kw in (dict(y=r2.y[0], u=r2.u[0]), dict(y=r.y[0], u=r.u[0]), dict(y=SX.sym("z"), u=r2.u[0]),
               dict(y=ca.vertcat(r.y[0], SX.sym("z")), u=vcat(r2.u[:2])), dict(y=ca.vertcat(r.x[0], r2.y[0]), u=vcat(r2.u[:2])),
               dict(y=vcat(r.x[:2]), u=ca.vertcat(r2.u[0], r.u[0]))):
        try:
            N.connect(node1=a, node2=b, **kw)
            ctx.require("foreign variable refused", False, "accepted %s" % kw)
        except ValueError:
            pass
    ctx.require("nothing connected", len(N.connections) == 0, "connections %s" % list(N.connections))
    N.connect(r.y[0], r2.u[0], a, b)
    N.connect(r2.y[0], r3.u[0], b, c)
    N.remove_connection(a, b)
    mm = N.get_model()
    ref = compose_m([(a, m, r), (b, m2, r2), (c, m3, r3)], [(1, "y", 0, 2, 0)], mm.t, mm.tau)
    align(ref, mm)
    check_model(ctx, "after removing a connection", mm, ref)
    g = N.get_map_coloring_groups()
    ctx.require("groups", sorted(n.node_id for q in g for n in q) == sorted(ids)
                and not any(x in q and y in q for q in g for x, y in N.connections), "groups %s" % g)


def end_state(ctx, net, t0=1.0, tf=3.0):
    """Initial conditions of the nodes: the end of the coupled simulation."""
    import yaocptool.modelling.network.network as mod
    from yaocptool.modelling import OptimalControlProblem
    from yaocptool.modelling.network.network import Network

    def fn(vals):
        nd, cons = NETS[net]
        N = Network(name="net")
        M = []
        for k, s in enumerate(nd):
            m, r = make(ctx, 100 + 100 * k, "ABCD"[k], tau=False, **dict(sizes(s), np=0, nth=0))
            pr = OptimalControlProblem(m, x_0=vals("x0%d" % k, len(r.x)) if r.x else None, t_0=t0, t_f=5.0)
            pr.u_guess = vals("ug%d" % k, len(r.u))
            M.append((N.create_node(name="node" + "ABCD"[k], problem=pr), pr, r))
        link(N, M, cons, net, lambda q: q[2])
        with hooks.active(integrator=Intg(ctx)):
            got = N.get_initial_condition(tf)
            whole = N.get_problem()
            fc = whole.simulate(t_f=tf).final_condition()
        where = {s.element_hash(): SX(fc[k])[i] for k, v in (("x", whole.model.x), ("y", whole.model.y), ("u", whole.model.u))
                 for i, s in enumerate(els(v))}
        ctx.require("nodes", sorted(got) == sorted(q[0].name for q in M), "%s" % sorted(got))
        for node, pr, r in M:
            if node.name not in got:
                continue
            for k in "xyu":
                syms = getattr(r, k)
                if syms:
                    ctx.equal("%s %s" % (node.name, k), ca.vec(SX(got[node.name][k])), vcat([where[s.element_hash()] for s in syms]))
    explore(ctx, fn, [mod])


def scenarios(tier):
    nets = list(NETS)
    out = [Scenario("model " + n, model, net=n) for n in nets]
    out += [Scenario("problem " + n, problem, net=n) for n in nets if n != "ring" or tier == "thorough"]
    out += [Scenario("problem again " + n, problem, net=n, again=True) for n in ("pair", "chain")]
    out += [Scenario("problem from zero", problem, net="chain", t0=0.0, tf=1.0)]
    out += [Scenario("intermediary %s %s" % (w, n), intermediary, net=n, when=w) for w in ("after", "connect")
            for n in nets if n not in (("single",) if tier == "thorough" else ("single", "ring", "star", "chain") if w == "connect" else ("single", "ring"))]
    out += [Scenario("lookup", lookup), Scenario("end state pair", end_state, net="pair"),
            Scenario("end state chain", end_state, net="chain"), Scenario("end state isolated", end_state, net="isolated")]
    if tier == "thorough":
        out += [Scenario("end state " + n, end_state, net=n) for n in ("cycle", "star", "join", "ring", "pair two variables")]
    return out
