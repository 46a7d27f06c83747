"""C14 path queries, C15 validation, C16 adding/renaming/looking up, C22 attribute guardrails."""
from fractions import Fraction as Fr

from . import env, gen, sched
from . import spec as S
from .drive import Session
from .observe import observe, ikey, lkey, dkey
from .oracle import Net, TooMany, fr
from .spec import digest
from .w_history import diff, diff_results, light, snapshot
from .w_routing import fileable, make, pick_build


# ---------------------------------------------------------------- C14

def paths_of(r):
    return sorted(tuple(ikey(i) for i in p) for p in r)


def usable(net, obs, bw, failed=False, credit=()):
    """Interfaces a query may use: exact bandwidth arithmetic with a margin of indecision."""
    res = reservations(obs)
    yes, maybe = [], []
    own, amount = credit if credit else ((), Fr(0))
    for k in net.all:
        if obs.ifaces[k]["failed"] and not failed:
            continue
        if bw == 0:
            yes.append(k)
            continue
        if obs.ifaces[k]["rsvp"] is not True:
            continue
        left = net.budget[k] - res[k] + (amount if k in own else 0)
        margin = max(Fr(2, 10**6), max(bw, left) * Fr(3, 10**9))   # the code compares floats with isclose
        if left >= bw:
            (yes if left - bw >= margin or left == bw else maybe).append(k)
        elif bw - left < margin:
            maybe.append(k)
    return yes, maybe


def reservations(obs):
    res = {k: Fr(0) for k in obs.ifaces}
    for x in obs.lsps.values():
        for i in x["path"] or ():
            res[i] += fr(x["reserved"])
    return res


def run_c14(c):
    rng = c.rng
    sp = make(c, rng.choice(["C01", "C07", "C08", "C11"]))
    if len(sp["nodes"]) < 2:
        return
    for x in list(sp["lsps"]):
        if rng.random() < 0.3:
            S.add_lsp(sp, x["d"], x["s"], x["n"] + " back", x["bw"], x["m"])
    s = Session(c, sp, pick_build(rng, sp))
    s.update()
    for _ in range(rng.choice([0, 0, 1, 3])):
        s.step(s.FAIL + ["cost", "rsvp"])
    if rng.random() < 0.7:
        s.update()
    m = s.m
    obs = observe(m)
    net = Net(obs)
    before = snapshot(m)
    names = s.names()
    todo = []
    res = reservations(obs)
    lefts = [net.budget[k] - res[k] for k in net.rsvp]
    exact = all(x.denominator <= 1000 for x in lefts)
    for _ in range(rng.randint(3, 8)):
        a, b = rng.sample(names, 2)
        bw = 0
        if rng.random() < 0.6:
            bw = rng.choice([1, 30, 60, 100, 240, 5000])
            if exact and lefts and rng.random() < 0.5:
                v = rng.choice(lefts)
                if v > 0:
                    bw = float(v) + rng.choice([0, 0, 0.001, -0.001])
        fbw = fr(bw)
        yes, maybe = usable(net, obs, fbw)
        if maybe:
            c.n["queries_undecided"] += 1
            continue
        try:
            want = net.sp_paths(a, b, yes, limit=300)
        except TooMany:
            continue
        if rng.random() < 0.15:
            broken_query(c, "get_shortest_path", lambda a=a, b=b, bw=bw: m.get_shortest_path(a, b, bw), want)
        todo.append(("get_shortest_path", (a, b, bw), {}, want))
        c.note("get_shortest_path", a, b, bw)
        r = c.must("get_shortest_path", m.get_shortest_path, a, b, bw) if bw else c.must("get_shortest_path", m.get_shortest_path, a, b)
        c.n["shortest_path_queries"] += 1
        c.n["shortest_paths_compared"] += len(want)
        if len(want) > 1:
            c.n["multi_shortest"] += 1
        if not want:
            c.n["no_path_queries"] += 1
        if paths_of(r["path"]) != sorted(want):
            c.bad("get_shortest_path(%s, %s, %s) returns %s, expected %s" % (a, b, bw, paths_of(r["path"])[:4], sorted(want)[:4]))
        cost = net.sp_cost(a, b, yes) if want else None
        if r["cost"] != cost:
            c.bad("get_shortest_path(%s, %s, %s) returns cost %s, expected %s" % (a, b, bw, r["cost"], cost))
        # all paths
        cut = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12])
        inc = rng.random() < 0.5
        kw = {"include_failed_circuits": inc, "cutoff": cut, "needed_bw": bw}
        for k, dflt in (("include_failed_circuits", True), ("cutoff", 10), ("needed_bw", 0)):
            if kw[k] == dflt and rng.random() < 0.7 or rng.random() < 0.15:
                del kw[k]
        inc, cut = kw.get("include_failed_circuits", True), kw.get("cutoff", 10)
        bw = kw.get("needed_bw", 0)
        fbw = fr(bw)
        yes, maybe = usable(net, obs, fbw, failed=inc)
        if maybe:
            continue
        try:
            want = net.simple_paths(a, b, cut, yes, limit=1500)
        except TooMany:
            continue
        if rng.random() < 0.15:
            broken_query(c, "get_all_paths_reservable_bw", lambda a=a, b=b, kw=kw: m.get_all_paths_reservable_bw(a, b, **kw), want)
        todo.append(("get_all_paths_reservable_bw", (a, b), kw, want))
        c.note("get_all_paths_reservable_bw", a, b, kw)
        r = c.must("get_all_paths_reservable_bw", m.get_all_paths_reservable_bw, a, b, **kw)
        c.n["all_paths_default_arguments"] += 3 - len(kw)
        c.n["all_paths_queries"] += 1
        c.n["all_paths_compared"] += len(want)
        if paths_of(r["path"]) != sorted(want):
            got = paths_of(r["path"])
            c.bad("get_all_paths_reservable_bw(%s, %s, %s, cutoff %s, %s): %d paths, expected %d; unexpected %s, missing %s" % (
                a, b, inc, cut, bw, len(got), len(want), [p for p in got if p not in want][:2], [p for p in want if p not in got][:2]))
        if len(want) > 1:
            c.keys.add(digest([sorted(map(str, want)), a, b, bw]))
    for x in sorted(m.rsvp_lsp_objects, key=lkey):
        if not isinstance(x.path, dict):
            continue
        bws = [rng.choice([1, 45, 90, 180]), float(x.reserved_bandwidth) * rng.choice([1, 1.5, 2]) + rng.choice([0, 1])]
        if exact:
            near = [net.budget[ikey(i)] - res[ikey(i)] for i in x.path["interfaces"]] + lefts
            bws += [float(rng.choice(near)) + rng.choice([0, float(x.reserved_bandwidth), float(x.reserved_bandwidth) / 2]) for _ in range(2)]
        for bw in bws:
            a, b = rng.choice([lkey(x)[:2], lkey(x)[:2], lkey(x)[1::-1], tuple(rng.sample(names, 2))])
            own = set(ikey(i) for i in x.path["interfaces"])
            yes, maybe = usable(net, obs, fr(bw), credit=(own, fr(x.reserved_bandwidth)))
            if maybe or bw <= 0:
                continue
            try:
                want = net.sp_paths(a, b, yes, limit=300)
            except TooMany:
                continue
            if rng.random() < 0.15:
                broken_query(c, "get_shortest_path_for_routed_lsp", lambda: m.get_shortest_path_for_routed_lsp(a, b, x, bw), want)
            todo.append(("get_shortest_path_for_routed_lsp", (a, b, x, bw), {}, want))
            c.note("get_shortest_path_for_routed_lsp", lkey(x), a, b, bw)
            r = c.must("get_shortest_path_for_routed_lsp", m.get_shortest_path_for_routed_lsp, a, b, x, bw)
            c.n["routed_lsp_queries"] += 1
            if paths_of(r["path"]) != sorted(want):
                c.bad("get_shortest_path_for_routed_lsp(%s, %s) returns %s, expected %s" % (lkey(x), bw, paths_of(r["path"])[:4], sorted(want)[:4]))
            w = net.sp_cost(a, b, yes) if want else None
            if r["cost"] != w:
                c.bad("get_shortest_path_for_routed_lsp(%s, %s) returns cost %s, expected %s" % (lkey(x), bw, r["cost"], w))
    if rng.random() < 0.15 and len(todo) > 1:
        queries_at_once(c, m, todo)
    for d in diff(before, snapshot(m)):
        c.bad("path queries changed the model: %s" % d)


def broken_query(c, name, f, want):
    """A query that is broken off gives no answer rather than a wrong one."""
    n = sched.count_lines(f)
    if not n or n > 60000:
        return
    for _ in range(c.rng.randint(1, 4)):
        at = c.rng.randint(1, n)
        what, r = sched.break_at(f, at)
        c.n["queries_broken_off"] += 1
        if what != "broken" and paths_of(r["path"]) != sorted(want):
            c.bad("%s, interrupted at line %d of %d, returned %s as its answer, which is %s" % (name, at, n, paths_of(r["path"])[:4], sorted(want)[:4]))


def queries_at_once(c, m, todo):
    """Threads ask one model, taking turns."""
    rng = c.rng
    todo = rng.sample(todo, min(len(todo), 8))
    k = rng.randint(2, min(4, len(todo)))

    def ask(mine):
        return [getattr(m, name)(*a, **kw) for name, a, kw, want in mine]
    lists = [todo[i::k] for i in range(k)]
    t = sched.Turns(rng, [lambda x=x: ask(x) for x in lists], rng.choice([3, 20, 100])).run()
    c.n["thread_runs"] += 1
    c.n["thread_switches"] += t.switches
    c.keys.add(t.trail.hexdigest()[:16])
    for (ok, r), mine in zip(t.results, lists):
        if not ok:
            c.bad("queries of several threads: raised %r" % r)
            continue
        for x, (name, a, kw, want) in zip(r, mine):
            c.n["thread_answers_compared"] += 1
            if paths_of(x["path"]) != sorted(want):
                c.bad("%s%s next to queries of other threads returns %s, expected %s" % (name, a, paths_of(x["path"])[:4], sorted(want)[:4]))


# ---------------------------------------------------------------- C15

def objects(sp, kind):
    nodes = {}
    for n in sp["nodes"]:
        o = env.Node(n["name"], n["lat"], n["lon"])
        o.igp_shortcuts_enabled = n["shortcuts"]
        nodes[n["name"]] = o
    for n in sp["nodes"]:
        if n["failed"]:
            nodes[n["name"]].failed = True
    pairs = []
    for k in sp["circuits"]:
        pairs.append(S.circuit_ifaces(k, nodes, S.is_flex(kind)))
        if k["failed"] or nodes[k["a"]].failed or nodes[k["b"]].failed:
            for i in pairs[-1]:
                i.failed = True
    dem = [env.Demand(nodes[d["s"]], nodes[d["d"]], d["t"], d["n"]) for d in sp["demands"]]
    lsps = [env.RSVP_LSP(nodes[x["s"]], nodes[x["d"]], x["n"], x["bw"], x["m"]) for x in sp["lsps"]]
    return nodes, pairs, dem, lsps


def run_c15(c):
    rng = c.rng
    kind = rng.choice(["flex", "plm", "perf", "model"])
    flex = S.is_flex(kind)
    big = rng.random() < 0.15
    sp = gen.topology(rng, kind, n=rng.randint(12, 40) if big else None, style=rng.choice(["pop", "digits"]) if big else None,
                      family=rng.choice(["random", "ring", "ladder"]) if big else None)
    if not sp["circuits"]:
        return
    if rng.random() < 0.03:
        c.n["hub_networks"] += 1
        sp = gen.hub(rng, kind)
    else:
        gen.demands(rng, sp, count=rng.randint(0, 5))
        gen.lsps(rng, sp, count=rng.randint(0, 4))
    if flex and rng.random() < 0.3:
        gen.shortcuts(rng, sp)
    c.note(kind, S.clone(sp))
    oseed = c.order()

    def mk(pairs, nodes, dem, lsps):
        return S.model_class(kind)(S.sched([i for p in pairs for i in p], oseed), S.sched(nodes.values(), oseed), S.sched(dem, oseed), S.sched(lsps, oseed))

    nodes, pairs, dem, lsps = objects(sp, kind)
    m = c.must("constructor", mk, pairs, nodes, dem, lsps)
    c.must("validate_model of a well-formed model", m.validate_model)
    c.must("update_simulation of a well-formed model", m.update_simulation)
    c.must("validate_model after an update", m.validate_model)
    c.n["well_formed_accepted"] += 1
    c.keys.add(digest(sp))
    kinds = ["no_counterpart", "capacity", "dup_iface", "rename_node", "reserved_sum", "reserved_high", "reserved_lsp", "capacity_below"]
    kinds += ["id_once", "id_shared", "id_shared", "id_shared_pair"] if flex else ["parallel", "shortcuts", "parallel3"]
    defect = rng.choice(kinds)
    if rng.random() < 0.4:
        gen.failures(rng, sp, rng.choice([0.15, 0.6]), rng.choice([0, 0.1]))
    nodes, pairs, dem, lsps = objects(sp, kind)
    flat = [list(p) for p in pairs]
    j = rng.randrange(len(flat))
    s_ = rng.randrange(2)
    ops = ["validate_model", "update_simulation"]
    op = rng.choice(ops)
    where = "%s, circuit %d of %d" % (defect, j, len(flat))
    if defect == "no_counterpart":
        del flat[j][s_]
    elif defect == "capacity":
        flat[j][s_].capacity = flat[j][s_].capacity + rng.choice([1, 0.5, 100])
    elif defect == "dup_iface":
        i = flat[j][s_]
        others = [x for p in flat for x in p if x is not i and x.node_object is i.node_object]
        if not others:
            return
        i.name = rng.choice(others).name
    elif defect == "rename_node":
        if len(nodes) < 2:
            return
        a, b = rng.sample(sorted(nodes), 2)
    elif defect == "id_once":
        flat[j][s_].circuit_id = "another"
    elif defect == "id_shared":
        if len(flat) < 2:
            return
        k = rng.choice([x for x in range(len(flat)) if x != j])
        for i in flat[j]:
            i.circuit_id = flat[k][0].circuit_id
    elif defect == "id_shared_pair":
        # a second link between the same nodes with the same circuit id
        i0, i1 = flat[j]
        flat.append([env.Interface("x1", 7, i0.capacity, i0.node_object, i0.remote_node_object, i0.circuit_id),
                     env.Interface("x2", 7, i0.capacity, i1.node_object, i1.remote_node_object, i0.circuit_id)])
    elif defect in ("parallel", "parallel3"):
        for x in range(2 if defect == "parallel3" else 1):
            i0, i1 = flat[j]
            flat.append([env.Interface("x1%d" % x, 7, i0.capacity, i0.node_object, i0.remote_node_object),
                         env.Interface("x2%d" % x, 7, i0.capacity, i1.node_object, i1.remote_node_object)])
    elif defect == "shortcuts":
        nodes[rng.choice(sorted(nodes))].igp_shortcuts_enabled = True
    if rng.random() < 0.25:
        # one end only of a circuit is failed; the first validation or update fails the other
        p = flat[j] if rng.random() < 0.6 else rng.choice(flat)
        rng.choice(p).failed = True
        c.n["defects_with_one_end_failed"] += 1
    try:
        m = mk(flat, nodes, dem, lsps)
    except env.ModelException:
        c.n["rejected_" + defect] += 1
        return
    if defect in ("rename_node", "reserved_sum", "reserved_high", "reserved_lsp", "capacity_below"):
        c.must("update_simulation before the defect", m.update_simulation)
        if defect == "rename_node":
            old = nodes[a].name
            nodes[a].name = nodes[b].name
            op = "validate_model"
        elif defect == "capacity_below":
            op = "validate_model"
            held = sorted((p for p in flat if max(i.reserved_bandwidth for i in p) >= 1), key=lambda p: str(p[0].name))
            if not held:
                return
            p = rng.choice(held)
            was = p[0].capacity
            for i in p:
                i.capacity = max(x.reserved_bandwidth for x in p) * rng.choice([0.5, 0.9])
            for i in p:
                i.capacity = p[0].capacity
        elif defect == "reserved_lsp":
            op = "validate_model"
            held = sorted((x for x in lsps if "Unrouted" not in x.path and x.path["interfaces"]), key=lambda x: str((x.source_node_object.name, x.dest_node_object.name, x.lsp_name)))
            if not held:
                return
            x = rng.choice(held)
            x.reserved_bandwidth = x.reserved_bandwidth + rng.choice([1, 40])
        else:
            op = "validate_model"
            i = flat[j][s_]
            was = i.reserved_bandwidth
            if defect == "reserved_sum":
                i.reserved_bandwidth = was + rng.choice([1, 5])
                if i.reserved_bandwidth > i.capacity or rng.random() < 0.3 and was >= 2:
                    i.reserved_bandwidth = max(was - 2, 0)
                if abs(i.reserved_bandwidth - was) < 0.5:
                    return
            else:
                i.reserved_bandwidth = i.capacity + rng.choice([1, 1000])
    if defect in ("no_counterpart", "capacity", "dup_iface", "id_once", "id_shared", "id_shared_pair", "parallel", "parallel3", "shortcuts"):
        if defect == "dup_iface" and len(m.interface_objects) < sum(len(p) for p in flat):
            return
    if c.must_raise("%s with defect %s" % (op, where), getattr(m, op)):
        c.n["rejected_" + defect] += 1
        c.n["defects_rejected"] += 1
        c.keys.add(digest([sp, defect, j, s_]))
    # a repaired model is accepted again
    if defect == "capacity":
        flat[j][s_].capacity = flat[j][1 - s_].capacity
    elif defect == "shortcuts":
        for n in nodes.values():
            n.igp_shortcuts_enabled = False
    elif defect == "rename_node":
        nodes[a].name = old
    elif defect == "capacity_below":
        for i in p:
            i.capacity = was
    elif defect in ("reserved_sum", "reserved_high", "reserved_lsp"):
        pass
    else:
        return
    c.must("update_simulation after repairing %s" % defect, m.update_simulation)
    c.n["repaired_accepted"] += 1


# ---------------------------------------------------------------- C16

def lookups(c, s):
    """Everything the shadow knows is found, and is the object held by the model."""
    m = s.m
    o = {
        "n": {x.name: x for x in m.node_objects}, "i": {ikey(x): x for x in m.interface_objects},
        "d": {dkey(x): x for x in m.demand_objects}, "l": {lkey(x): x for x in m.rsvp_lsp_objects},
    }
    for x in s.sp["nodes"]:
        g = c.must("get_node_object", m.get_node_object, x["name"])
        c.check(g is o["n"].get(x["name"]), "get_node_object(%s) is not the model's node" % x["name"])
    for x in s.sp["circuits"]:
        for a, b in (("a", "b"), ("b", "a")):
            k = (x[a], x[a + "n"])
            i = c.must("get_interface_object", m.get_interface_object, x[a + "n"], x[a])
            c.check(i is o["i"].get(k), "get_interface_object(%s) is not the model's interface" % (k,))
            c.check(i.node_object is o["n"].get(x[a]) and i.remote_node_object is o["n"].get(x[b]),
                    "interface %s is not attached to the model's own nodes" % (k,))
            r = c.must("get_interface_object_from_nodes", m.get_interface_object_from_nodes, x[a], x[b])
            r = list(r) if isinstance(r, (list, set, tuple)) else [r]
            want = sorted((y[p], y[p + "n"]) for y in s.sp["circuits"] for p, q in (("a", "b"), ("b", "a")) if y[p] == x[a] and y[q] == x[b])
            c.check(sorted(ikey(y) for y in r if y is not None) == want, lambda: "get_interface_object_from_nodes(%s, %s) is %s, expected %s" % (x[a], x[b], r, want))
            if s.flex and len(want) > 1:
                r = m.get_interface_object_from_nodes(x[a], x[b], circuit_id=i.circuit_id)
                c.check(len(r) == 1 and r[0] is i, lambda: "get_interface_object_from_nodes with circuit id of %s is %s" % (k, r))
            ck = c.must("get_circuit_object_from_interface", m.get_circuit_object_from_interface, x[a + "n"], x[a])
            ends = {ikey(ck.interface_a), ikey(ck.interface_b)}
            c.check(ends == {k, (x[b], x[b + "n"])}, lambda: "circuit of interface %s has ends %s" % (k, ends))
            both = c.must("get_circuit_interfaces", ck.get_circuit_interfaces, m)
            c.check({id(y) for y in both} == {id(ck.interface_a), id(ck.interface_b)} and any(y is i for y in both),
                    lambda: "get_circuit_interfaces of the circuit of interface %s is %s" % (k, both))
    for x in s.sp["demands"]:
        k = (x["s"], x["d"], x["n"])
        g = c.must("get_demand_object", m.get_demand_object, *k)
        c.check(g is o["d"].get(k), "get_demand_object(%s) is not the model's demand" % (k,))
        c.check(g.source_node_object is o["n"].get(x["s"]) and g.dest_node_object is o["n"].get(x["d"]), "demand %s is not attached to the model's own nodes" % (k,))
    for x in s.sp["lsps"]:
        k = (x["s"], x["d"], x["n"])
        g = c.must("get_rsvp_lsp", m.get_rsvp_lsp, *k)
        c.check(g is o["l"].get(k), "get_rsvp_lsp(%s) is not the model's LSP" % (k,))
        c.check(g.source_node_object is o["n"].get(x["s"]) and g.dest_node_object is o["n"].get(x["d"]), "LSP %s is not attached to the model's own nodes" % (k,))
    ids = {x.circuit_id for x in m.interface_objects}
    got = c.must("all_interface_circuit_ids", lambda: m.all_interface_circuit_ids)
    c.check(set(got) == ids and len(ids) == len(s.sp["circuits"]),
            lambda: "all_interface_circuit_ids is %s, the %d circuits' interfaces have %s" % (got, len(s.sp["circuits"]), ids))
    c.n["lookups_done"] += 1


def add_list(c, s):
    """add_network_interfaces_from_list with new and existing nodes."""
    rng = c.rng
    lst, new = [], []
    names = list(s.names())
    fresh = []
    for _ in range(rng.randint(1, 3)):
        if not names or rng.random() < 0.5:
            nm = s.fresh("L")
            fresh.append(nm)
            names.append(nm)
        if len(names) < 2:
            continue
        a, b = rng.sample(names, 2)
        if not s.flex and any({x["a"], x["b"]} == {a, b} for x in s.sp["circuits"] + new):
            continue
        x = {"id": s.fresh("lc"), "a": a, "b": b, "an": s.fresh("li"), "bn": s.fresh("li"), "ac": rng.randint(1, 50), "bc": rng.randint(1, 50),
             "cap": rng.choice([100, 250.5]), "arsvp": True, "brsvp": True, "apct": 100, "bpct": 100, "failed": rng.random() < 0.3}
        new.append(x)
        for p, q in (("a", "b"), ("b", "a")):
            e = {"name": x[p + "n"], "cost": x[p + "c"], "capacity": x["cap"], "node": x[p], "remote_node": x[q], "circuit_id": x["id"], "failed": x["failed"]}
            if not x["failed"] and rng.random() < 0.5:
                del e["failed"]
            lst.append(e)
    if not lst:
        return None
    if rng.random() < 0.5:
        rng.shuffle(lst)
    used = {x[p] for x in new for p in "ab"}
    c.note("add_network_interfaces_from_list", lst)
    c.must("add_network_interfaces_from_list", s.m.add_network_interfaces_from_list, lst)
    for nm in fresh:
        if nm in used:
            S.add_node(s.sp, nm)
    for x in new:
        x["failed"] = x["failed"] or s.node(x["a"])["failed"] or s.node(x["b"])["failed"]
        s.sp["circuits"].append(x)
    return "add_list"


def refused(c, s):
    rng, m, sp = c.rng, s.m, s.sp
    names = s.names()
    ghost = "ghost node"
    opts = ["get"]
    if names:
        opts += ["node", "demand_ghost", "lsp_ghost", "iface_ghost", "circuit_ghost"]
    if len(names) > 1:
        opts += ["circuit_name"]
        if s.flex:
            opts += ["circuit_noid"]
    if sp["circuits"]:
        opts += ["circuit_id", "list_dup", "list_single", "raise_flag"]
        if s.flex:
            opts += ["list_id"]
    if sp["demands"]:
        opts += ["demand"] * 2
    if sp["lsps"]:
        opts += ["lsp"] * 2
    w = rng.choice(opts)
    before = snapshot(m, False)
    c.note("refused", w)
    nd = m.get_node_object
    if w == "node":
        c.must_raise("add_node of an existing name", m.add_node, env.Node(rng.choice(names), 9, 9))
    elif w == "demand":
        x = rng.choice(sp["demands"])
        c.must_raise("add_demand of an existing key", m.add_demand, x["s"], x["d"], 77, x["n"])
    elif w == "lsp":
        x = rng.choice(sp["lsps"])
        c.must_raise("add_rsvp_lsp of an existing key", m.add_rsvp_lsp, x["s"], x["d"], x["n"])
    elif w == "demand_ghost":
        a = [rng.choice(names), ghost]
        rng.shuffle(a)
        c.must_raise("add_demand with an unknown node", m.add_demand, a[0], a[1], 5, "g")
    elif w == "lsp_ghost":
        a = [rng.choice(names), ghost]
        rng.shuffle(a)
        c.must_raise("add_rsvp_lsp with an unknown node", m.add_rsvp_lsp, a[0], a[1], "g")
    elif w == "iface_ghost":
        c.must_raise("fail_interface of an unknown interface", m.fail_interface, "no such", rng.choice(names))
        c.must_raise("change_interface_name of an unknown interface", m.change_interface_name, rng.choice(names), "no such", "x")
        c.must_raise("fail_node of an unknown node", m.fail_node, ghost)
    elif w == "circuit_ghost":
        a = [nd(rng.choice(names)), env.Node(ghost)]
        rng.shuffle(a)
        c.must_raise("add_circuit with a node that is not in the model", m.add_circuit, a[0], a[1], "g1", "g2", circuit_id="gg")
    elif w == "circuit_name":
        x = rng.choice(sp["circuits"]) if sp["circuits"] else None
        if x is None:
            return
        p = rng.choice("ab")
        other = rng.choice([n for n in names if n != x[p]])
        a = [(x[p], x[p + "n"]), (other, "other end")]
        rng.shuffle(a)
        c.must_raise("add_circuit with an existing interface name", m.add_circuit, nd(a[0][0]), nd(a[1][0]), a[0][1], a[1][1], circuit_id="nn")
    elif w == "circuit_id" and len(names) > 1:
        x = rng.choice(sp["circuits"])
        a, b = rng.sample(names, 2)
        if s.flex:
            c.must_raise("add_circuit with an existing circuit id", m.add_circuit, nd(a), nd(b), "z1", "z2", circuit_id=x["id"])
        else:
            c.must_raise("add_circuit between linked nodes (performance model)", m.add_circuit, nd(x["a"]), nd(x["b"]), "z1", "z2")
    elif w == "circuit_noid":
        a, b = rng.sample(names, 2)
        c.must_raise("add_circuit without circuit id (flexible model)", m.add_circuit, nd(a), nd(b), "z1", "z2")
    elif w == "list_dup" and len(names) > 2:
        x = rng.choice(sp["circuits"])
        o = [n for n in names if n != x["a"] and not any({y["a"], y["b"]} == {n, x["a"]} for y in sp["circuits"])]
        if not o:
            return
        b = rng.choice(o)
        c.must_raise("add_network_interfaces_from_list with an existing interface name", m.add_network_interfaces_from_list, [
            {"name": x["an"], "cost": 3, "capacity": 50, "node": x["a"], "remote_node": b, "circuit_id": "dup"},
            {"name": "dupother", "cost": 3, "capacity": 50, "node": b, "remote_node": x["a"], "circuit_id": "dup"}])
    elif w == "raise_flag":
        x = rng.choice(sp["circuits"])
        p = rng.choice("ab")
        flag = rng.choice(["True", 1, 0, None, "no"])
        c.must_raise("unfail_interface with raise_exception=%r" % (flag,), m.unfail_interface, x[p + "n"], x[p], flag)
    elif w == "list_single":
        c.must_raise("add_network_interfaces_from_list with one end only", m.add_network_interfaces_from_list, [
            {"name": "single", "cost": 3, "capacity": 50, "node": rng.choice(names), "remote_node": "brand new", "circuit_id": "single"}])
    elif w == "list_id":
        x = rng.choice(sp["circuits"])
        if rng.random() < 0.5:
            a, b = x["a"], x["b"]
        else:
            a, b = "brand", "new"
        c.must_raise("add_network_interfaces_from_list with an existing circuit id", m.add_network_interfaces_from_list, [
            {"name": "li1", "cost": 3, "capacity": 50, "node": a, "remote_node": b, "circuit_id": x["id"]},
            {"name": "li2", "cost": 3, "capacity": 50, "node": b, "remote_node": a, "circuit_id": x["id"]}])
    else:
        c.must_raise("get_node_object of an unknown name", m.get_node_object, ghost)
        c.must_raise("get_demand_object of an unknown key", m.get_demand_object, ghost, ghost, "x")
        c.must_raise("get_rsvp_lsp of an unknown key", m.get_rsvp_lsp, ghost, ghost, "x")
        c.must_raise("get_srlg_object of an unknown name", m.get_srlg_object, ghost)
        if names:
            c.must_raise("get_interface_object of an unknown name", m.get_interface_object, "no such", rng.choice(names))
            c.must_raise("get_circuit_object_from_interface of an unknown name", m.get_circuit_object_from_interface, "no such", rng.choice(names))
        if sp["demands"]:
            x = rng.choice(sp["demands"])
            c.must_raise("get_demand_object reversed", m.get_demand_object, x["s"], x["d"], x["n"] + "?")
        if sp["lsps"]:
            x = rng.choice(sp["lsps"])
            c.must_raise("get_rsvp_lsp other name", m.get_rsvp_lsp, x["s"], x["d"], x["n"] + "?")
    c.n["refused_calls"] += 1
    for d in diff(before, snapshot(m, False)):
        c.bad("a refused call (%s) changed the model: %s" % (w, d))
    return "refused"


def run_c16(c):
    rng = c.rng
    if rng.random() < 0.3:
        sp = S.new_spec(rng.choice(["flex", "perf", "plm", "model"]))
    else:
        sp = light(c, 0.3, nmax=6)
    how = pick_build(rng, sp) if sp["nodes"] else "grow"
    if sp["circuits"] and rng.random() < 0.2 and not any(x["failed"] for x in sp["nodes"] + sp["circuits"]):
        how = rng.choice(["raw", "rawfile"] if fileable(sp) and sp["demands"] else ["raw"])
    s = Session(c, sp, how)
    if how in ("raw", "rawfile"):
        # the first call made on a model is an addition
        for _ in range(20):
            op = add_list(c, s) if rng.random() < 0.2 else s.step(["add_node", "add_circuit", "add_circuit", "add_demand", "add_lsp"])
            if op:
                c.n["additions_before_validation"] += 1
                s.compare("after %s on a model never validated" % op)
                lookups(c, s)
                break
        if c.v:
            return
    s.update()
    menu = ["add_node", "add_circuit", "add_circuit", "add_demand", "add_lsp", "rename", "fail_node", "fail_interface", "unfail_node", "drop_demand", "srlg_new",
            "capacity", "cost", "metric", "recable"]
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < 0.2:
            op = add_list(c, s)
        elif r < 0.5:
            op = refused(c, s)
        elif not s.sp["nodes"]:
            s.op_add_node()
            op = "add_node"
        else:
            op = s.step(menu)
        if op:
            c.n["additions"] += 1
            s.compare("after %s" % op)
        if c.v:
            return
        if rng.random() < 0.3:
            s.update()
            lookups(c, s)
    s.update()
    s.compare("at the end")
    lookups(c, s)
    c.keys.add(digest(c.log))


# ---------------------------------------------------------------- C22

def run_c22(c):
    rng = c.rng
    sp = light(c, 0.5, nmax=6)
    if not sp["circuits"]:
        return
    if not sp["lsps"] and len(sp["nodes"]) > 1 and sp["kind"] != "x":
        gen.lsps(rng, sp)
    s = Session(c, sp, pick_build(rng, sp))
    s.update()
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        s.step(s.SRLG + s.FAIL)
        if c.v:
            return
    s.update()
    m = s.m
    before = snapshot(m)
    r0 = observe(m)
    ifs = sorted(m.interface_objects, key=ikey)
    nodes = sorted(m.node_objects, key=lambda x: x.name)
    lsps = sorted(m.rsvp_lsp_objects, key=lkey)

    def bad_set(o, attr, v):
        old = getattr(o, attr)
        c.n["refused_assignments"] += 1
        c.note("refuse", str(o), attr, repr(v))
        try:
            setattr(o, attr, v)
        except (env.ModelException, ValueError, TypeError):
            pass
        else:
            c.bad("%s = %r accepted on %s" % (attr, v, o))
        now = getattr(o, attr)
        if now is not old and now != old or type(now) is not type(old):
            c.bad("%s is %r after refusing %r, was %r" % (attr, now, v, old))

    def good_set(o, attr, v, want=None):
        c.n["accepted_assignments"] += 1
        c.note("accept", str(o), attr, repr(v))
        try:
            setattr(o, attr, v)
        except Exception as ex:
            c.bad("valid %s = %r refused on %s: %s" % (attr, v, o, ex))
            return
        want = v if want is None else want
        if getattr(o, attr) != want:
            c.bad("%s reads %r after setting %r" % (attr, getattr(o, attr), v))

    NONBOOL = [0, 1, "yes", None, "no", 2.0, [], "", 0.0, 1.0, "true", "False ", b"True"]
    srlgs = sorted(m.srlg_objects, key=lambda x: x.name)
    for _ in range(rng.randint(4, 10)):
        i = rng.choice(ifs)
        n = rng.choice(nodes)
        w = rng.randint(0, 9)
        if w == 0:
            bad_set(i, "cost", rng.choice([0, -1, -100, 0.5, 1.5, 7.0, "4", None]))
        elif w == 1:
            bad_set(i, "capacity", rng.choice([0, -1, -0.5, 0.0, -1e-9, "x", None, float("nan"), float("-inf")]))
        elif w == 2:
            bad_set(i, "failed", rng.choice(NONBOOL))
        elif w == 3:
            bad_set(n, "failed", rng.choice(NONBOOL))
            if srlgs:
                bad_set(rng.choice(srlgs), "failed", rng.choice(NONBOOL + ["True"]))
        elif w == 4:
            bad_set(n, "igp_shortcuts_enabled", rng.choice(NONBOOL))
        elif w == 5:
            bad_set(n, rng.choice(["lat", "lon"]), rng.choice(["12", None, [1], "x"]))
        elif w == 6:
            bad_set(i, "reserved_bandwidth", rng.choice(["1", None, [2], "x"]))
        elif w == 7:
            for v in (rng.choice([-1, -0.01, -100, -0.0005, -1e-9]), rng.choice(["5", None, [1]])):
                c.n["refused_assignments"] += 1
                try:
                    env.Demand(n, rng.choice(nodes), v, "bad")
                    c.bad("a demand of %r was accepted" % (v,))
                except (ValueError, TypeError, env.ModelException):
                    pass
            v = rng.choice([-1, -0.01, -100, -0.0005, -1e-9])
            if len(nodes) > 1:
                a, b = rng.sample(nodes, 2)
                try:
                    m.add_demand(a.name, b.name, v, "bad demand")
                    c.bad("add_demand of %r was accepted" % (v,))
                except (ValueError, TypeError, env.ModelException):
                    pass
        elif w == 8 and lsps:
            bad_set(rng.choice(lsps), "manual_metric", rng.choice([0, -2, 1.5, "5", None, -1.5]))
        elif w == 9 and lsps:
            x = rng.choice(lsps)
            if not x.configured_setup_bandwidth:
                bad_set(x, "setup_bandwidth", rng.choice([-1, -0.5, -1000, -0.0004, -1e-9]))
            bad_set(x, "configured_setup_bandwidth", rng.choice([-1, -0.5, -1000, -0.0004, -1e-9]))
    for d in diff(before, snapshot(m)):
        c.bad("refused assignments changed the model: %s" % d)
    from .oracle import deterministic
    s.update()
    o = observe(m)
    if deterministic(o):
        c.n["results_after_refusals_compared"] += 1
        for d in diff_results(r0, o):
            c.bad("results changed after refused assignments: %s" % d)
    for cls_bad in (lambda: env.Interface("q", 0, 10, nodes[0], nodes[-1]), lambda: env.Interface("q", 1.5, 10, nodes[0], nodes[-1]),
                    lambda: env.Interface("q", 1, 0, nodes[0], nodes[-1]), lambda: env.Interface("q", 1, -3, nodes[0], nodes[-1]),
                    lambda: env.Node("q", "x", 1), lambda: env.Node("q", 1, "x"), lambda: env.Node("q", lon=None),
                    lambda: env.RSVP_LSP(nodes[0], nodes[-1], "q", rng.choice([-1, -0.25, -1e6, -0.0004, -1e-9])),
                    lambda: env.RSVP_LSP(nodes[0], nodes[-1], "q", rng.choice([None, 0, 5]), rng.choice([0, -2, 1.5, "5", 0.0, 7.0])),
                    lambda: env.Interface("q", "1", 10, nodes[0], nodes[-1]), lambda: env.Interface("q", 1, "10", nodes[0], nodes[-1]),
                    lambda: env.Interface("q", None, 10, nodes[0], nodes[-1])):
        c.n["refused_assignments"] += 1
        try:
            o = cls_bad()
            c.bad("constructor accepted %r" % (o,))
        except (ValueError, TypeError, env.ModelException):
            pass
    # valid values are accepted and read back
    for _ in range(rng.randint(3, 8)):
        i = rng.choice(ifs)
        n = rng.choice(nodes)
        w = rng.randint(0, 7)
        if w == 0:
            good_set(i, "cost", rng.choice([1, 2, 65535, 16777215, 10**9, 10**12]))
        elif w == 1:
            good_set(i, "capacity", rng.choice([0.1, 1, 10**7, 33.3, 4 * 10**10, 10**13, 1e-4]))
        elif w == 2:
            good_set(n, "lat", rng.choice([0, -90.0, 12.25, 90, 200]))
            good_set(n, "lon", rng.choice([0, -180, 0.5]))
        elif w == 3:
            good_set(n, "igp_shortcuts_enabled", rng.random() < 0.5)
        elif w == 4 and lsps:
            good_set(rng.choice(lsps), "manual_metric", rng.choice([1, 7, 10**6, 2**32, 10**12]))
        elif w == 5 and lsps:
            good_set(rng.choice(lsps), "manual_metric", -1, "not set")
        elif w == 6 and lsps:
            x = rng.choice(lsps)
            if not x.configured_setup_bandwidth:
                good_set(x, "setup_bandwidth", rng.choice([0, 1, 2.5, 1000]))
            good_set(x, "configured_setup_bandwidth", rng.choice([0, 1, 2.5, 1000, 0.0]))
            bw, met = rng.choice([None, 0, 3.5]), rng.choice([None, 1, 99])
            y = c.must("RSVP_LSP", env.RSVP_LSP, n, rng.choice(nodes), "ok", bw, met)
            c.check(y.configured_setup_bandwidth == bw and y.manual_metric == (met or "not set"), "LSP given bandwidth %r and metric %r has %r and %r" % (bw, met, y.configured_setup_bandwidth, y.manual_metric))
        else:
            t = rng.choice([0, 0.0, 1, 0.001, 10**9, 10**13, 2.5, 1e-9])
            d = c.must("Demand", env.Demand, n, rng.choice(nodes), t, "ok")
            c.check(d.traffic == t, "demand of %r reads %r" % (t, d.traffic))
            c.n["accepted_assignments"] += 1
    c.keys.add(digest(c.log))
