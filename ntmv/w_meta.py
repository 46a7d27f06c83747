"""C18 the two model classes agree; C20 metamorphic relations."""
from . import env, gen
from . import spec as S
from .drive import Session
from .observe import observe, ikey, slack
from .oracle import deterministic
from .spec import digest
from .w_history import light
from .w_routing import make


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def igp_only(o):
    """Demands that LSP signaling cannot touch: no LSP joins their ends, no shortcuts anywhere."""
    if any(n["shortcuts"] for n in o.nodes.values()) and o.lsps:
        return set()
    pairs = {(k[0], k[1]) for k in o.lsps}
    return {k for k in o.demands if (k[0], k[1]) not in pairs}


def paths(d):
    return sorted(d["path"]) if isinstance(d["path"], list) else d["path"]


def agree(c, what, a, b, det, factor=1, same=None):
    """b's results equal a's (times factor for loads), up to display rounding."""
    only = igp_only(a)
    for k in a.demands:
        if not det and k not in only:
            continue
        if same is not None and k not in same:
            continue
        c.n["demands_compared"] += 1
        pa, pb = paths(a.demands[k]), paths(b.demands[k])
        if isinstance(pa, list) and len(pa) > 1:
            c.n["multipath_compared"] += 1
        if pa != pb:
            c.bad("%s: demand %s takes %s / %s" % (what, k, str(pa)[:250], str(pb)[:250]))
    if not det:
        return
    for k, x in a.lsps.items():
        y = b.lsps[k]
        c.n["lsps_compared"] += 1
        if x["path"] != y["path"]:
            c.bad("%s: LSP %s takes %s / %s" % (what, k, x["path"], y["path"]))
        elif x["path"] is not None:
            if abs(x["reserved"] * factor - y["reserved"]) > 1e-6 * max(1.0, abs(y["reserved"])):
                c.bad("%s: LSP %s reserves %s (x%s) / %s" % (what, k, x["reserved"], factor, y["reserved"]))
        elif y["reserved"] != x["reserved"]:
            c.bad("%s: unrouted LSP %s reserves %s / %s" % (what, k, x["reserved"], y["reserved"]))
    sl = slack(a)
    for k, x in a.ifaces.items():
        y = b.ifaces[k]
        c.n["loads_compared"] += 1
        tx, ty = x["traffic"], y["traffic"]
        if not (num(tx) and num(ty)):
            if tx != ty:
                c.bad("%s: interface %s carries %r / %r" % (what, k, tx, ty))
            continue
        c.n["loads_nonzero"] += tx > 0
        if abs(tx * factor - ty) > (1 + factor) * sl[k] + 1e-6 * max(1.0, abs(ty)):
            c.bad("%s: interface %s carries %s (x%s) / %s" % (what, k, tx, factor, ty))
        # interfaces display reservations to one decimal
        if abs(x["reserved"] * factor - y["reserved"]) > 0.0501 * (1 + factor) + 1e-6 * y["reserved"]:
            c.bad("%s: interface %s has %s (x%s) / %s reserved" % (what, k, x["reserved"], factor, y["reserved"]))


# ---------------------------------------------------------------- C18

PAIRS = [("perf", "flex"), ("perf", "flex"), ("perf", "plm"), ("model", "flex"), ("model", "plm"), ("model", "perf"), ("perf", "model")]


def simple_spec(c, kind):
    rng = c.rng
    if rng.random() < 0.55:
        sp = gen.topology(rng, kind, costmode=rng.choice(["wide", "wide", "small", "tens"]), cap_mode=rng.choice(["flat", "mixed"]),
                          rsvp_mode=rng.choice(["on", "some", "mix"]), parallel=False)
        gen.demands(rng, sp, mode=rng.choice(["light", "clean", "frac"]))
        if rng.random() < 0.7:
            gen.lsps(rng, sp, bwmode=rng.choice(["auto", "fixed", "mix"]))
            for x in sp["lsps"]:
                if x["bw"]:
                    x["bw"] = rng.choice([1, 5, 10, 10, 10**7])
        if rng.random() < 0.3:
            gen.failures(rng, sp, 0.15, 0.1)
        return sp
    while True:
        sp = make(c, rng.choice(["C01", "C02", "C03", "C10"]))
        if not S.is_flex(sp["kind"]):
            sp["kind"] = kind
            return sp


def query_same(c, s, m2):
    names = s.names()
    if len(names) < 2:
        return
    a, b = c.rng.sample(names, 2)
    bw = c.rng.choice([0, 0, 30, 120])
    r1 = c.must("get_shortest_path", s.m.get_shortest_path, a, b, bw)
    r2 = c.must("get_shortest_path", m2.get_shortest_path, a, b, bw)
    k1 = (sorted([tuple(ikey(i) for i in p) for p in r1["path"]]), r1["cost"])
    k2 = (sorted([tuple(ikey(i) for i in p) for p in r2["path"]]), r2["cost"])
    c.check(k1 == k2, lambda: "get_shortest_path(%s, %s, %s): %s / %s" % (a, b, bw, str(k1)[:300], str(k2)[:300]))
    c.n["queries_compared"] += 1
    if c.rng.random() < 0.3:
        cut, inc = c.rng.randint(1, 5), c.rng.random() < 0.5
        q1 = c.must("get_all_paths_reservable_bw", s.m.get_all_paths_reservable_bw, a, b, inc, cut, 0)
        q2 = c.must("get_all_paths_reservable_bw", m2.get_all_paths_reservable_bw, a, b, inc, cut, 0)
        p1 = sorted([tuple(ikey(i) for i in p) for p in q1["path"]])
        p2 = sorted([tuple(ikey(i) for i in p) for p in q2["path"]])
        c.check(p1 == p2, lambda: "get_all_paths_reservable_bw(%s, %s, %s, %s): %s / %s" % (a, b, inc, cut, str(p1)[:300], str(p2)[:300]))


def run_c18(c):
    rng = c.rng
    k1, k2 = rng.choice(PAIRS)
    sp = simple_spec(c, k1)
    s = Session(c, sp, rng.choice(["ctor", "ctor", "grow"]))
    c.note("compared with", k2)
    c.n["pair_%s_%s" % (k1, k2)] += 1
    menu = s.FAIL * 2 + s.CONF
    first = True
    for _ in range(rng.choice([0, 1, 3, 5])):
        if first:
            s.update()
            first = False
        for _ in range(rng.randint(1, 4)):
            s.step(menu)
        if not compare_now(c, s, k2):
            return
    compare_now(c, s, k2)
    c.keys.add(digest(c.log))
    classes(c)


def compare_now(c, s, k2):
    s.update()
    sp2 = S.clone(s.sp)
    sp2["kind"] = k2
    m2 = c.must("building a %s" % k2, S.build, sp2, c.order())
    c.must("update_simulation of a %s" % k2, m2.update_simulation)
    a, b = observe(s.m), observe(m2)
    det = deterministic(a)
    c.n["deterministic" if det else "nondeterministic"] += 1
    agree(c, "%s / %s" % (s.kind, k2), a, b, det)
    if {k: v["failed"] for k, v in a.ifaces.items()} != {k: v["failed"] for k, v in b.ifaces.items()}:
        c.bad("%s / %s: different interfaces are failed" % (s.kind, k2))
    if det:
        query_same(c, s, m2)
        c.n["models_compared"] += 1
        d1, d2 = c.must("diagnostics", s.m.simulation_diagnostics), c.must("diagnostics", m2.simulation_diagnostics)
        for k in d1:
            if k.startswith("Number") and d1[k] != d2.get(k):
                c.bad("diagnostics %s: %s / %s" % (k, d1[k], d2.get(k)))
    return not c.v


def classes(c):
    c.check(issubclass(env.Model, env.PerformanceModel), "Model is not a PerformanceModel")
    c.check(issubclass(env.Parallel_Link_Model, env.FlexModel), "Parallel_Link_Model is not a FlexModel")


# ---------------------------------------------------------------- C20

def rename(rng, sp):
    """A spec with other names everywhere, and the maps back."""
    t = S.clone(sp)
    n = len(sp["nodes"])
    while True:
        names = gen.node_names(rng, n, rng.choice(gen.STYLES + ["collide"] * 4) if n <= 18 else "pop")
        if len(set(names)) == n:
            break
    rng.shuffle(names)
    nm = {x["name"]: y for x, y in zip(sp["nodes"], names)}
    ifn, dn, ln = {}, {}, {}
    for x in t["nodes"]:
        x["name"] = nm[x["name"]]
    style = rng.choice(["x%d", "Ethernet1/%d", "%d", "to other %d", "zz-%d"])
    ids = list(range(len(t["circuits"]) * 2))
    rng.shuffle(ids)
    joined = gen.colliding_interfaces(rng, t, nm) if rng.random() < 0.5 else {}
    for i, k in enumerate(t["circuits"]):
        for j, e in enumerate("ab"):
            new = joined.get((i, e)) or style % ids[2 * i + j]
            ifn[(nm[k[e]], new)] = (k[e], k[e + "n"])
            k[e + "n"] = new
        k["a"], k["b"] = nm[k["a"]], nm[k["b"]]
    keep_ids = rng.random() < 0.5
    if not keep_ids:
        new = rng.sample(range(1, 10 * len(t["circuits"]) + 10), len(t["circuits"]))
        for k, v in zip(t["circuits"], new):
            k["id"] = v
    for i, d in enumerate(t["demands"]):
        new = "q%d" % (997 - i)
        dn[(nm[d["s"]], nm[d["d"]], new)] = (d["s"], d["d"], d["n"])
        d["s"], d["d"], d["n"] = nm[d["s"]], nm[d["d"]], new
    for i, x in enumerate(t["lsps"]):
        new = "p%d" % (501 - i)
        ln[(nm[x["s"]], nm[x["d"]], new)] = (x["s"], x["d"], x["n"])
        x["s"], x["d"], x["n"] = nm[x["s"]], nm[x["d"]], new
    return t, (nm, ifn, dn, ln)


def back(o, maps):
    nm, ifn, dn, ln = maps

    def it(x):
        return ("I",) + ifn[x[1:]] if x[0] == "I" else (("L",) + ln[x[1:]] if x[0] == "L" else x)
    o.ifaces = {ifn[k]: v for k, v in o.ifaces.items()}
    for v in o.lsps.values():
        if v["path"] is not None:
            v["path"] = [ifn[i] for i in v["path"]]
    o.lsps = {ln[k]: v for k, v in o.lsps.items()}
    for v in o.demands.values():
        if isinstance(v["path"], list):
            v["path"] = [tuple(it(x) for x in p) for p in v["path"]]
    o.demands = {dn[k]: v for k, v in o.demands.items()}
    return o


def simulate(c, what, sp, how=None):
    if how == "set":
        m = c.must(what, S.build, sp, 0, None, set)
    elif how == "grow":
        return observe(grown(c, sp))
    else:
        m = c.must(what, S.build, sp, c.rng.randint(1, 10**6))
    c.must("update_simulation (%s)" % what, m.update_simulation)
    return observe(m)


def grown(c, sp):
    s = Session(c, sp, "grow")
    s.update()
    return s.m


def meta_spec(c):
    rng = c.rng
    sp = light(c, 0.65)
    if rng.random() < 0.4:
        gen.failures(rng, sp, 0.15, 0.08)
    return sp


def run_c20(c):
    rng = c.rng
    sp = meta_spec(c)
    c.note("base", S.clone(sp))
    base = simulate(c, "base model", sp)
    det = deterministic(base)
    c.n["deterministic" if det else "nondeterministic"] += 1
    flex = S.is_flex(sp["kind"])
    for what in rng.sample(["rename", "reorder", "grow", "costs", "traffic", "part", "swap_ends"], 4):
        t = S.clone(sp)
        c.n["relation_" + what] += 1
        if what == "rename":
            t, maps = rename(rng, sp)
            o = back(simulate(c, what, t), maps)
            agree(c, "after renaming", base, o, det)
        elif what == "reorder":
            for k in ("nodes", "circuits", "demands", "lsps"):
                rng.shuffle(t[k])
            agree(c, "after reordering", base, simulate(c, what, t, rng.choice(["set", None])), det)
        elif what == "swap_ends":
            for k in t["circuits"]:
                if rng.random() < 0.5:
                    for x, y in (("a", "b"), ("an", "bn"), ("ac", "bc"), ("arsvp", "brsvp"), ("apct", "bpct")):
                        k[x], k[y] = k[y], k[x]
            agree(c, "after listing circuits from the other end", base, simulate(c, what, t), det)
        elif what == "grow":
            agree(c, "grown instead of built", base, simulate(c, what, t, "grow"), det)
        elif what == "costs":
            f = rng.choice([2, 3, 7, 10, 1000, 10**7, 10**9])
            for k in t["circuits"]:
                k["ac"], k["bc"] = k["ac"] * f, k["bc"] * f
            for x in t["lsps"]:
                if x["m"] is not None:
                    x["m"] *= f
            o = simulate(c, what, t)
            agree(c, "with all costs times %d" % f, base, o, det)
            for k, x in base.lsps.items():
                if det and x["path"] is not None and o.lsps[k]["cost"] != x["cost"] * f:
                    c.bad("with all costs times %d: LSP %s costs %s / %s" % (f, k, x["cost"], o.lsps[k]["cost"]))
        elif what == "traffic":
            f = rng.choice([2, 4, 10, 100])
            for k in t["circuits"]:
                k["cap"] *= f
            for d in t["demands"]:
                d["t"] *= f
            for x in t["lsps"]:
                if x["bw"] is not None:
                    x["bw"] *= f
            o = simulate(c, what, t)
            agree(c, "with all traffic times %d" % f, base, o, det, factor=f)
        else:
            other = gen.topology(rng, sp["kind"], n=rng.randint(1, 5), style="letters")
            gen.demands(rng, other, count=rng.randint(0, 4), mode="clean")
            if det:
                gen.lsps(rng, other, count=rng.randint(0, 2))
            far = "far %s"
            for n in other["nodes"]:
                n["name"] = far % n["name"]
                n["shortcuts"] = flex and rng.random() < 0.3
            for k in other["circuits"]:
                k["a"], k["b"], k["id"] = far % k["a"], far % k["b"], "far%r" % k["id"]
            for d in other["demands"] + other["lsps"]:
                d["s"], d["d"] = far % d["s"], far % d["d"]
            # and demands that cannot cross
            dead = []
            if sp["nodes"] and rng.random() < 0.5:
                dead = [{"s": rng.choice(sp["nodes"])["name"], "d": other["nodes"][0]["name"], "t": 50, "n": "dead"}]
            for k in ("nodes", "circuits", "demands", "lsps"):
                t[k] += other[k]
            t["demands"] += dead
            o = simulate(c, what, t)
            agree(c, "with a disconnected part added", base, o, det)
            for d in dead:
                if o.demands[(d["s"], d["d"], d["n"])]["path"] != "Unrouted":
                    c.bad("a demand into the disconnected part is routed")
        if c.v:
            return
    if base.demands:
        c.keys.add(digest(sp))
