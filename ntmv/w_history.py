"""C04 history independence, C05 failures and repairs, C06 shared-risk groups, C19 isolation."""
from . import gen, pristine, sched
from . import spec as S
from .case import Violation
from .drive import Session
from .monitors import ALL, Monitor
from .observe import observe, results, slack, ikey, lkey, dkey
from .oracle import deterministic
from .spec import digest
from .w_routing import make, pick_build, fileable


def diff(a, b, limit=4):
    """First differences of two result dictionaries."""
    out = []
    for part in a:
        for k in sorted(set(a[part]) | set(b[part]), key=str):
            x, y = a[part].get(k, "absent"), b[part].get(k, "absent")
            if x != y and not near(x, y):
                out.append("%s %s: %s / %s" % (part, k, str(x)[:200], str(y)[:200]))
                if len(out) >= limit:
                    return out
    return out


def diff_results(o1, o2, limit=4):
    """First differences of two simulations' results that display rounding does not explain."""
    a, b = results(o1), results(o2)
    sl = slack(o1)
    ia, ib = a.pop("ifaces"), b.pop("ifaces")
    out = diff(a, b, limit)
    for k in sorted(set(ia) | set(ib)):
        x, y = ia.get(k, (None,) * 3), ib.get(k, (None,) * 3)
        if x[2] != y[2] or not close(x[0], y[0], 2 * sl[k]) or not close(x[1], y[1], 0.1001):
            out.append("interface %s: %s / %s" % (k, x, y))
    return out[:limit]


def close(x, y, tol):
    if x == y:
        return True
    if any(not isinstance(v, (int, float)) or isinstance(v, bool) for v in (x, y)):
        return False
    return abs(x - y) <= tol + 2e-6 * max(1.0, abs(x))


def near(x, y):
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool):
        return abs(x - y) <= 2e-5 * max(1.0, abs(x))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(p == q or near(p, q) for p, q in zip(x, y))
    return False


def light(c, p=0.5, **kw):
    """A spec where LSP signaling usually has one outcome."""
    rng = c.rng
    if rng.random() < 0.05:
        c.n["colliding_networks"] += 1
        sp = gen.colliding(rng, rng.choice(["flex", "perf"]))
        gen.collide(rng, sp)
        return sp
    if kw.get("nmax", 9) > 4 and rng.random() < (0.006 if "nmax" in kw else 0.012):
        c.n["hub_networks"] += 1
        return gen.hub(rng, rng.choice(["flex", "perf"]), most=rng.choice([12, 34]) if c.prop != "C22" else 18)
    if c.idx % 401 == 17:
        c.n["crowded_networks"] += 1
        return gen.crowd(rng, rng.choice(["flex", "perf"]), less=True)
    if rng.random() < p:
        kind = rng.choice(["flex", "perf"])
        sp = gen.topology(rng, kind, costmode="wide", cap_mode="flat", rsvp_mode=rng.choice(["on", "some"]), **kw)
        gen.demands(rng, sp, mode=rng.choice(["light", "clean", "frac"]))
        if rng.random() < 0.6:
            gen.lsps(rng, sp, bwmode=rng.choice(["auto", "fixed", "mix"]))
            for x in sp["lsps"]:
                if x["bw"]:
                    x["bw"] = rng.choice([1, 5, 10, 10, 10**7])
        if kind == "flex" and rng.random() < 0.3:
            gen.shortcuts(rng, sp)
        return sp
    return make(c, rng.choice(["C01", "C02", "C03", "C10", "C11", "C12"]))


def long_history(c):
    """Now and then a history is long, in a small network."""
    if c.idx % 101 == 29:
        c.n["long_histories"] += 1
        return c.rng.choice([60, 120, 200])
    return 0


def run_c04(c):
    rng = c.rng
    long = long_history(c)
    sp = light(c, 1.0, nmax=4) if long else light(c)
    mon = Monitor(ALL, lookups=False, rsvp_budget=3000)
    hist_v = []
    try:
        with mon:
            s = Session(c, sp, pick_build(rng, sp))
            if rng.random() < 0.8:
                s.update()
            menu = s.FAIL * 3 + s.CONF
            if rng.random() < 0.5:
                menu = menu + s.SRLG * 2
            if rng.random() < 0.15:
                menu = menu + s.MARK * 3
            for _ in range(long or rng.randint(3, 22 if not c.thorough else 45)):
                s.step(menu)
                if rng.random() < 0.35:
                    s.update()
                if rng.random() < 0.2:
                    queries(c, s)
            s.compare("before the last update")
            if rng.random() < 0.3:
                break_off(c, s, mon)
            mon.rep.v = []
            s.update()
            hist_v = list(mon.rep.v)
            o1 = observe(s.m)
            s.compare("after the last update", o1)
            det = deterministic(o1)
            s.update()
            o2 = observe(s.m)
            if det:
                c.n["repeat_updates_compared"] += 1
                for m in diff_results(o1, o2):
                    c.bad("updating again changed %s" % m)
            # the same final state, built afresh
            mon.rep.v = []
            f = c.must("fresh build", S.build, s.sp, s.order_seed)
            c.must("fresh update_simulation", f.update_simulation)
            fresh_v = list(mon.rep.v)
            o3 = observe(f)
            if det:
                c.n["fresh_builds_compared"] += 1
                for m in diff_results(o1, o3):
                    c.bad("history/fresh model differ: %s" % m)
                for k in o1.demands:
                    if not same_detail(o1.demands[k]["detail"], o3.demands[k]["detail"]):
                        c.bad("history/fresh path detail of %s differ: %s / %s" % (k, o1.demands[k]["detail"], o3.demands[k]["detail"]))
            if hist_v and not fresh_v:
                for a, m in hist_v[:5]:
                    c.bad("after this history only: [%s] %s" % (a, m))
            if s.ops:
                c.n["histories"] += 1
                c.n["operations"] += s.ops
                c.keys.add(digest([c.log]))
    finally:
        c.n.update({k: v for k, v in mon.rep.n.items() if k in ("updates_observed", "updates_with_failures", "lsps_routed", "demands_checked")})


def break_off(c, s, mon):
    """An update that ends somewhere within, by an interrupt or because its output cannot be written. It
    must not return as if it had been done, and the next update must not notice."""
    rng = c.rng
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.3:
            how, at = "output fails at write", rng.randint(1, 40)
            f = sched.broken_pipe_at
        else:
            how, at = "interrupted at line", int(10 ** rng.uniform(0, 4.3))
            f = sched.break_at
        c.note("update_simulation", how, at)
        mon.rep.v = []
        try:
            r = f(s.m.update_simulation, at)[0]
        except Exception as ex:
            c.bad("update_simulation (%s %d) raised %s: %s" % (how, at, type(ex).__name__, str(ex)[:200]))
            raise Violation()
        c.n["updates_broken_off" if r == "broken" else "updates_not_broken_off"] += 1
        if r == "swallowed":
            for a, m in mon.rep.v[:3]:
                c.bad("update_simulation (%s %d) returned normally and left: [%s] %s" % (how, at, a, m))


def same_detail(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if not isinstance(a, dict):
        return a == b
    x = sorted((str(v["items"]), v["traffic"]) for v in a.values())
    y = sorted((str(v["items"]), v["traffic"]) for v in b.values())
    return len(x) == len(y) and all(p[0] == q[0] and near(p[1], q[1]) for p, q in zip(x, y))


def queries(c, s):
    """Read-only calls that must leave no trace."""
    rng, m = c.rng, s.m
    n = s.names()
    if len(n) < 2:
        return
    a, b = rng.sample(n, 2)
    c.n["queries_interleaved"] += 1
    which = rng.randint(0, 4)
    if which == 0:
        c.must("get_shortest_path", m.get_shortest_path, a, b)
    elif which == 1:
        c.must("simulation_diagnostics", m.simulation_diagnostics)
    elif which == 2:
        c.must("parallel_lsp_groups", m.parallel_lsp_groups)
        c.must("parallel_demand_groups", m.parallel_demand_groups)
    elif which == 3:
        for i in list(m.interface_objects):
            c.must("interface.demands", i.demands, m)
    else:
        c.must("validate_model", m.validate_model)


def run_c05(c):
    rng = c.rng
    long = long_history(c)
    sp = light(c, 1.0, nmax=4) if long else light(c, 0.7)
    s = Session(c, sp, pick_build(rng, sp))
    s.update()
    s.compare("start")
    mode = rng.random()
    menu = s.FAIL
    if mode < 0.45:
        menu = s.FAIL * 3 + s.SRLG
    if rng.random() < 0.25:
        menu = menu + s.MARK
    for _ in range(long or rng.randint(2, 14)):
        if rng.random() < 0.35:
            restore(c, s)
            if c.v:
                return
        op = s.step(menu)
        if op:
            s.compare("after %s" % op)
            if op in ("fail_interface", "unfail_interface", "fail_node", "unfail_node"):
                c.n["failure_ops_compared"] += 1
        if rng.random() < 0.4:
            s.update()
            s.compare("after update")
        if c.v:
            return
    c.keys.add(digest(c.log))


def restore(c, s):
    """fail + repair of an element that is up gives back configuration and results."""
    rng = c.rng
    s.update()
    o1 = observe(s.m)
    det = deterministic(o1)
    ups = [x for x in s.sp["circuits"] if not x["failed"]]
    nodes = [x for x in s.sp["nodes"] if not x["failed"] and not any(
        k["failed"] for k in s.sp["circuits"] if x["name"] in (k["a"], k["b"]))]
    if nodes and rng.random() < 0.5:
        x = rng.choice(nodes)
        s.op_fail_node(x)
        s.compare("after failing node %s" % x["name"])
        if rng.random() < 0.7:
            s.update()
        s.op_unfail_node(x)
        what = "node %s" % x["name"]
    elif ups:
        x = rng.choice(ups)
        s.op_fail_interface(x, rng.choice("ab"), rng.choice(["model", "iface"]))
        s.compare("after failing interface")
        if rng.random() < 0.7:
            s.update()
        s.op_unfail_interface(x, rng.choice("ab"), rng.choice(["model", "iface", "raise"]))
        what = "interface %s" % (s.ckey(x),)
    else:
        return
    s.compare("after failing and repairing %s" % what)
    s.update()
    c.n["restores"] += 1
    if det:
        c.n["restored_results_compared"] += 1
        for m in diff_results(o1, observe(s.m)):
            c.bad("failing and repairing %s changed %s" % (what, m))


def run_c06(c):
    rng = c.rng
    long = long_history(c)
    sp = light(c, 1.0, nmax=4) if long else light(c, 0.5)
    s = Session(c, sp, pick_build(rng, sp))
    s.update()
    menu = s.SRLG * 3 + s.FAIL + ["rename", "add_circuit", "leave", "recable"]
    if rng.random() < 0.25:
        menu = menu + s.MARK
    for g in range(rng.randint(1, 3)):
        s.step(["srlg_new"])
    for _ in range(rng.randint(2, 6)):
        s.step(["join"])
        s.compare("after joining")
    if rng.random() < 0.04 and s.sp["circuits"]:
        large_groups(c, s)
        s.compare("after joining large groups")
    for _ in range(long or rng.randint(3, 16)):
        op = s.step(menu)
        if op:
            s.compare("after %s" % op)
            if op in s.SRLG:
                c.n["srlg_ops_compared"] += 1
            if any(g["failed"] for g in s.srlgs.values()):
                c.n["states_with_failed_srlg"] += 1
        if rng.random() < 0.3:
            s.update()
            s.compare("after update")
        if rng.random() < 0.15:
            bogus(c, s)
            s.compare("after a refused SRLG call")
        if c.v:
            return
    s.update()
    s.compare("after the last update")
    c.keys.add(digest(c.log))


def large_groups(c, s):
    """A group of most circuits and nodes, or one element in many groups."""
    rng = c.rng
    c.n["large_groups"] += 1
    if rng.random() < 0.5:
        g = s.fresh("g")
        s.op_add_srlg(g)
        for x in s.sp["circuits"]:
            if rng.random() < 0.9:
                s.op_join_circuit(g, x, rng.choice("ab"), False)
        for x in s.sp["nodes"]:
            if rng.random() < 0.4:
                s.op_join_node(g, x, False)
    else:
        x, y = rng.choice(s.sp["circuits"]), rng.choice(s.sp["nodes"])
        for i in range(rng.randint(5, 9)):
            g = s.fresh("g")
            s.op_join_circuit(g, x, rng.choice("ab"), True)
            s.op_join_node(g, y, False)


def bogus(c, s):
    rng, m = c.rng, s.m
    w = rng.randint(0, 5)
    node = m.get_node_object(rng.choice(s.names()))
    ifs = sorted(m.interface_objects, key=ikey)
    if w == 0:
        c.must_raise("fail_srlg of an unknown group", m.fail_srlg, "no such group")
    elif w == 1:
        c.must_raise("unfail_srlg of an unknown group", m.unfail_srlg, "no such group")
    elif w == 2:
        c.must_raise("node.add_to_srlg of an unknown group", node.add_to_srlg, "no such group", m)
    elif w == 3 and ifs:
        c.must_raise("interface.add_to_srlg of an unknown group", rng.choice(ifs).add_to_srlg, "no such group", m)
    elif w == 4 and s.srlgs:
        c.must_raise("add_srlg of an existing name", m.add_srlg, rng.choice(sorted(s.srlgs)))
    else:
        c.must_raise("get_srlg_object of an unknown group", m.get_srlg_object, "no such group")
        if m.get_srlg_object("no such group", raise_exception=False) is not None:
            c.bad("get_srlg_object of an unknown group without raising is not None")


# ---------------------------------------------------------------- C19

def snapshot(m, ids=True):
    """Everything observable. ids=False leaves out the circuit ids of a performance model, which
    it numbers anew whenever it pairs its interfaces."""
    o = observe(m)
    if not ids and not o.flex:
        for v in o.ifaces.values():
            v["ckt"] = None
    return {
        "ifaces": {k: tuple(str(x) for x in v.items()) for k, v in o.ifaces.items()},
        "nodes": {k: tuple(v.items()) for k, v in o.nodes.items()},
        "lsps": {k: tuple(str(x) for x in v.items()) for k, v in o.lsps.items()},
        "demands": {k: str(v) for k, v in o.demands.items()},
        "srlgs": {g.name: (g.failed, str(sorted(x.name for x in g.node_objects)), str(sorted(map(ikey, g.interface_objects)))) for g in m.srlg_objects},
        "circuits": {x: 1 for x in o.circuits},
    }


def parts(m):
    out = {}
    for n in m.node_objects:
        out[id(n)] = "node %s" % n.name
    for i in m.interface_objects:
        out[id(i)] = "interface %s" % (ikey(i),)
        out[id(i.node_object)] = "node %s" % i.node_object.name
        out[id(i.remote_node_object)] = "node %s" % i.remote_node_object.name
    for x in m.rsvp_lsp_objects:
        out[id(x)] = "LSP %s" % (lkey(x),)
        out[id(x.source_node_object)] = "LSP node"
        if isinstance(x.path, dict):
            for i in x.path["interfaces"]:
                out[id(i)] = "LSP path interface %s" % (ikey(i),)
    for d in m.demand_objects:
        out[id(d)] = "demand %s" % (dkey(d),)
        out[id(d.dest_node_object)] = "demand node"
        if isinstance(d.path, list):
            for p in d.path:
                for i in p:
                    out[id(i)] = "demand path item %s" % i
    for g in m.srlg_objects:
        out[id(g)] = "SRLG %s" % g.name
    for k in m.circuit_objects:
        out[id(k)] = "circuit %s" % k
    return out


def owns(c, m, label):
    """Everything a model's results refer to belongs to that model."""
    ifs = {id(i) for i in m.interface_objects}
    lsps = {id(x) for x in m.rsvp_lsp_objects}
    nodes = {id(n): n.name for n in m.node_objects}
    c.n["ownership_checks"] += 1
    for i in m.interface_objects:
        if id(i.node_object) not in nodes or id(i.remote_node_object) not in nodes:
            c.bad("%s: interface %s hangs on a node object that is not the model's" % (label, ikey(i)))
    for x in m.rsvp_lsp_objects:
        if id(x.source_node_object) not in nodes or id(x.dest_node_object) not in nodes:
            c.bad("%s: LSP %s ends on a node object that is not the model's" % (label, lkey(x)))
        if isinstance(x.path, dict):
            for i in x.path["interfaces"]:
                if id(i) not in ifs:
                    c.bad("%s: LSP %s path has a foreign interface object %s" % (label, lkey(x), ikey(i)))
    for d in m.demand_objects:
        if id(d.source_node_object) not in nodes or id(d.dest_node_object) not in nodes:
            c.bad("%s: demand %s ends on a node object that is not the model's" % (label, dkey(d)))
        if isinstance(d.path, list):
            for p in d.path:
                for i in p:
                    if id(i) not in ifs and id(i) not in lsps:
                        c.bad("%s: demand %s path has a foreign object %s" % (label, dkey(d), i))
    for k in m.circuit_objects:
        for i in (k.interface_a, k.interface_b):
            if id(i) not in ifs:
                c.bad("%s: circuit has a foreign interface object %s" % (label, ikey(i)))
    for g in m.srlg_objects:
        if g.model is not m:
            c.bad("%s: SRLG %s belongs to another model" % (label, g.name))


def mix(rng, sp):
    """The same elements with some of their values exchanged."""
    for part, keys in rng.sample([("circuits", ["ac", "bc"]), ("circuits", ["cap"]), ("circuits", ["failed"]), ("demands", ["t"]), ("lsps", ["bw"]),
                                  ("lsps", ["m"]), ("circuits", ["ac", "bc", "cap"])], rng.choice([1, 1, 2, 7])):
        vals = [[x[k] for k in keys] for x in sp[part]]
        rng.shuffle(vals)
        for x, v in zip(sp[part], vals):
            x.update(zip(keys, v))


def compare_alone(c, s, label):
    """The model's results are those of the same model made in a process that has made no other."""
    from .oracle import deterministic
    o = observe(s.m)
    got = {lkey(x): x.effective_metric(s.m) for x in s.m.rsvp_lsp_objects}
    if not deterministic(o):
        c.n["alone_nondeterministic"] += 1
        return
    a = pristine.alone(s.sp, c.order())
    if a[0] != "ok":
        c.bad("%s: cannot be made in a process of its own: %s" % (label, a[1]))
        return
    c.n["compared_with_model_alone"] += 1
    for m in diff_results(a[1], o):
        c.bad("%s differs from the same model in a process of its own: %s" % (label, m))
    for k in sorted(a[2], key=str):
        if got.get(k) != a[2][k]:
            c.bad("%s: effective metric of LSP %s is %s, in a process of its own %s" % (label, k, got.get(k), a[2][k]))


def at_once(c, ss):
    """Each model is simulated by a thread of its own, taking turns; all give what they give alone."""
    from .oracle import deterministic
    rng = c.rng
    before = [observe(s.m) for s in ss]
    det = [deterministic(o) for o in before]
    c.note("all models update at once")
    t = sched.Turns(rng, [lambda m=s.m: [m.update_simulation() for _ in range(rng.choice([1, 2]))] for s in ss], rng.choice([3, 20, 100])).run()
    c.n["thread_runs"] += 1
    c.n["thread_switches"] += t.switches
    c.keys.add(t.trail.hexdigest()[:16])
    for i, s in enumerate(ss):
        if not t.results[i][0]:
            c.bad("model %d: update_simulation next to those of other models raised %r" % (i, t.results[i][1]))
            continue
        owns(c, s.m, "model %d updated next to others" % i)
        s.compare("model %d updated next to others" % i)
        if det[i]:
            c.n["thread_results_compared"] += 1
            for m in diff_results(before[i], observe(s.m)):
                c.bad("model %d gives other results next to other models: %s" % (i, m))


def run_c19(c):
    rng = c.rng
    sp = light(c, 0.4, nmax=6)
    same = rng.random() < 0.6
    sp2 = S.clone(sp) if same else light(c, 0.5, nmax=6)
    if same and rng.random() < 0.6:
        mix(rng, sp2)
    how = rng.choice(["ctor", "grow", "grow", "file", "file"])
    if how == "file" and rng.random() < 0.5:
        for x in (sp, sp2):
            S.add_node(x, "unconnected")
    if how == "file" and not (fileable(sp) and fileable(sp2) and sp["demands"] and sp2["demands"]):
        how = "grow"
    ss = [Session(c, sp, how), Session(c, sp2, how if rng.random() < 0.7 else "grow")]
    if rng.random() < 0.4:
        ss.append(Session(c, S.new_spec(rng.choice(["flex", "perf"])), "grow"))
    c.n["models_built"] += len(ss)
    snaps = [snapshot(s.m) for s in ss]
    menu = ss[0].FAIL + ss[0].SRLG + ss[0].CONF + ["add_node", "add_circuit", "add_demand"]
    ids = {}
    for _ in range(rng.randint(4, 14)):
        i = rng.randrange(len(ss))
        s = ss[i]
        op = s.step(menu) if s.sp["nodes"] and rng.random() < 0.75 else None
        if op is None:
            if not s.sp["nodes"]:
                s.op_add_node()
            else:
                s.update()
                op = "update"
        c.n["interleaved_ops"] += 1
        for j, t in enumerate(ss):
            if j != i:
                now = snapshot(t.m)
                c.n["bystander_snapshots"] += 1
                for m in diff(snaps[j], now):
                    c.bad("%s on model %d changed model %d: %s" % (op, i, j, m))
        snaps[i] = snapshot(s.m)
        if c.v:
            return
    for i, s in enumerate(ss):
        s.compare("model %d" % i)
        s.update()
        owns(c, s.m, "model %d" % i)
        compare_alone(c, s, "model %d" % i)
        if c.v:
            return
    if rng.random() < 0.3:
        at_once(c, ss)
        if c.v:
            return
    ids = [parts(s.m) for s in ss]
    for i in range(len(ss)):
        for j in range(i):
            for k in set(ids[i]) & set(ids[j]):
                c.bad("models %d and %d share %s" % (j, i, ids[i][k]))
    sets = {}
    for i, s in enumerate(ss):
        for nm in ("interface_objects", "node_objects", "demand_objects", "rsvp_lsp_objects", "circuit_objects", "srlg_objects"):
            o = getattr(s.m, nm)
            if id(o) in sets:
                c.bad("models %d and %d share their %s set" % (sets[id(o)], i, nm))
            sets[id(o)] = i
    # a fresh empty model is empty
    for kind in ("flex", "perf", "plm", "model"):
        m = c.must("empty model", S.model_class(kind))
        tot = sum(len(getattr(m, nm)) for nm in ("interface_objects", "node_objects", "demand_objects", "rsvp_lsp_objects", "circuit_objects", "srlg_objects"))
        if tot:
            c.bad("a new empty %s model holds %d elements" % (kind, tot))
    # grown versus built at once
    s = ss[0]
    f = c.must("build at once", S.build, s.sp, 0)
    c.must("update_simulation", f.update_simulation)
    o = observe(s.m)
    if deterministic(o):
        c.n["grown_vs_built_compared"] += 1
        for m in diff_results(o, observe(f)):
            c.bad("grown and built-at-once models differ: %s" % m)
    c.keys.add(digest(c.log))
