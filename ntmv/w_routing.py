"""Workloads decided by the update monitors: C01 C02 C03 C07 C08 C09 C10 C11 C12 C13."""
import math

from . import gen
from . import spec as S
from .drive import Session
from .monitors import Monitor
from .spec import digest

ASPECT = {
    "C01": ("igp",), "C02": ("split",), "C03": ("failed",), "C07": ("lspacct",), "C08": ("lspcspf",), "C09": ("lspbw",),
    "C10": ("steer",), "C11": ("shortcut",), "C12": ("detail",), "C13": ("lookup",),
}
HIT = {
    "C01": ("multipath_demands", "demand_unrouted"), "C02": ("loads_nonzero",), "C03": ("updates_with_failures",),
    "C07": ("lsps_routed",), "C08": ("lsps_routed",), "C09": ("updates_with_resignaling",), "C10": ("demand_lsp",),
    "C11": ("demand_shortcut",), "C12": ("details_checked",), "C13": ("lookups_compared",),
}


def make(c, prop=None):
    """A spec biased towards what a property needs."""
    prop = prop or c.prop
    rng = c.rng
    kind = rng.choice(["flex", "flex", "perf", "plm", "model"])
    if prop == "C11":
        kind = rng.choice(["flex", "flex", "flex", "plm"])
    if prop in ("C01", "C02", "C03", "C12", "C13") and rng.random() < 0.03:
        c.n["wide_networks"] += 1
        return gen.bundles(rng, kind) if S.is_flex(kind) and rng.random() < 0.4 else gen.wide(rng, kind)
    if prop == "C11" and rng.random() < 0.03:
        c.n["wide_networks"] += 1
        return gen.wide_shortcuts(rng, kind)
    if rng.random() < {"C08": 0.05}.get(prop, 0.01):
        c.n["detour_networks"] += 1
        return gen.wide_detours(rng, kind)
    if c.idx % 211 == 17 and prop == c.prop:
        c.n["crowded_networks"] += 1
        return gen.crowd(rng, kind)
    if c.idx % 307 == 17 and c.prop in ("C16", "C17", "C20", "C21", "C23"):
        c.n["crowded_networks"] += 1
        return gen.crowd(rng, kind, less=True)
    if rng.random() < (0.03 if c.prop == "C17" else 0.012):
        c.n["hub_networks"] += 1
        return gen.hub(rng, kind, large=0.5 if c.prop == "C17" else 0.2)
    if rng.random() < 0.02:
        c.n["long_networks"] += 1
        return gen.long_line(rng, kind)
    if rng.random() < {"C10": 0.06, "C11": 0.04}.get(prop, 0.02):
        c.n["colliding_networks"] += 1
        return gen.colliding(rng, kind)
    big = c.idx % 23 == 7
    kw = {}
    n = None
    if big:
        n = rng.randint(10, 24 if c.thorough else 16)
        kw["family"] = rng.choice(["random", "ring", "line", "ladder", "diamonds"])
        kw["style"] = rng.choice(["pop", "digits", "hyphen"])
        kw["costmode"] = rng.choice(["tens", "wide"])
        kw["parallel"] = rng.random() < 0.4
    if prop in ("C07", "C08", "C09"):
        kw["cap_mode"] = rng.choice(["tight", "tight", "mixed", "flat"])
        kw["bidir"] = rng.random() < 0.5
        if rng.random() < 0.5 and not big:
            kw["family"] = rng.choice(["diamonds", "grid", "full", "ladder"])
    if prop in ("C01", "C02", "C11", "C12") and rng.random() < 0.5 and not big:
        kw["costmode"] = rng.choice(["unit", "tie", "small"])
        kw["family"] = rng.choice(["diamonds", "grid", "full", "ladder", "random"])
    if prop == "C09":
        kw["rsvp_mode"] = rng.choice(["on", "on", "pct"])
    sp = gen.topology(rng, kind, n=n, **kw)
    dcount = rng.randint(6, 25) if big else None
    dmode = None
    if prop in ("C07", "C08", "C09"):
        dmode = rng.choice(["clean", "clean", "frac", "light", "tiny"])
        dcount = rng.randint(1, 5) if not big else 8
    elif rng.random() < 0.05:
        dmode = "tiny"
    gen.demands(rng, sp, count=dcount, mode=dmode)
    want = {"C01": 0.3, "C02": 0.6, "C03": 0.7, "C11": 1.0, "C12": 0.7, "C13": 0.8}.get(prop, 1.0)
    if rng.random() < want:
        if prop == "C11" and rng.random() < 0.75:
            gen.on_path_lsps(rng, sp, metric=rng.choice([0, 0.3, 0.6]))
            if rng.random() < 0.3:
                gen.lsps(rng, sp, count=rng.randint(1, 2), follow=0.8)
        elif prop in ("C02", "C12", "C13", "C10", "C03") and kind in ("flex", "plm") and rng.random() < 0.25:
            gen.on_path_lsps(rng, sp)
            if rng.random() < 0.5:
                gen.lsps(rng, sp, count=rng.randint(1, 3), follow=0.8)
        elif (prop == "C09" and rng.random() < 0.7) or (prop in ("C07", "C08") and rng.random() < 0.3):
            gen.contention(rng, sp)
        elif prop == "C11":
            gen.lsps(rng, sp, count=rng.randint(1, 7), follow=0.15, metric=0.3, bwmode=rng.choice(["auto", "fixed", "mix"]), group=0.35)
        elif prop == "C09":
            gen.lsps(rng, sp, count=rng.randint(2, 6), follow=1.0, group=0.65, bwmode=rng.choice(["auto", "auto", "auto", "mix"]))
        elif prop == "C10":
            gen.lsps(rng, sp, count=rng.randint(1, 7), follow=0.8, metric=0.45, group=0.6)
        elif prop == "C12":
            gen.lsps(rng, sp, follow=rng.choice([0.2, 0.8]))
        else:
            gen.lsps(rng, sp)
    flex = kind in ("flex", "plm")
    p = {"C11": 0.3, "C02": 0.4, "C12": 0.45, "C13": 0.4, "C01": 0.1}.get(prop, 0.2)
    if flex and rng.random() < p:
        gen.shortcuts(rng, sp, rng.choice([0.3, 0.6, 1.0]))
    if prop == "C10" and rng.random() < 0.5:
        # LSPs that also match demands only by part of their names
        for x in sp["demands"]:
            if rng.random() < 0.2:
                x["n"] = rng.choice(["lsp0", "lsp1"])
        seen = set()
        for i, x in enumerate(sp["demands"]):
            if (x["s"], x["d"], x["n"]) in seen:
                x["n"] = "z%d" % i
            seen.add((x["s"], x["d"], x["n"]))
    r = rng.random()
    if r < (0.6 if prop == "C03" else 0.3):
        gen.failures(rng, sp, rng.choice([0.1, 0.3]), rng.choice([0.0, 0.1, 0.25]))
    return sp


def fileable(sp):
    if len({str(x["id"]) for x in sp["circuits"]}) < len(sp["circuits"]) or any(x["cap"] != int(x["cap"]) for x in sp["circuits"]):
        return False
    for d in sp["demands"]:
        if d["t"] != int(d["t"]):
            return False
        d["t"] = int(d["t"])
    return all(x["lat"] == int(x["lat"]) and x["lon"] == int(x["lon"]) for x in sp["nodes"])


def pick_build(rng, sp):
    r = rng.random()
    if r < 0.68:
        return "ctor"
    if r < 0.84:
        return "grow"
    return "file" if fileable(sp) and len(sp["demands"]) else "ctor"


def ties(c):
    """Over many updates of one model, an LSP meets every way that ties for it, and no other."""
    rng = c.rng
    k = rng.choice([2, 2, 3, 4])
    sp, s, d = gen.fan(rng, rng.choice(["flex", "perf", "plm", "model"]), k)
    S.add_lsp(sp, s, d, "tie", rng.choice([None, 0, 20]) if c.prop == "C08" else None)
    if c.prop == "C09":
        # the rest of the group does not fit, so that the first one signals again for all of the traffic
        S.add_lsp(sp, s, d, "no", 5000)
        S.add_demand(sp, s, d, 60, "d")
    rounds = int(math.log(k * 1e11) / -math.log(1 - 1.0 / (k + 1))) + 1
    sess = Session(c, sp, "ctor")
    seen = {}
    for i in range(rounds):
        sess.update()
        l = sess.m.get_rsvp_lsp(s, d, "tie")
        if not c.check("Unrouted" not in l.path, lambda: "LSP tie unrouted although nothing stands in its way"):
            return
        p = tuple(sorted((x.node_object.name, x.remote_node_object.name) for x in l.path["interfaces"]))
        seen[p] = seen.get(p, 0) + 1
    out = {}
    for x in sp["circuits"]:
        for a, b, cost in ((x["a"], x["b"], x["ac"]), (x["b"], x["a"], x["bc"])):
            out.setdefault(a, []).append((b, cost))
    ways = []

    def walk(at, path, cost):
        if at == d:
            ways.append((cost, len(path), tuple(sorted(path))))
            return
        for b, k in out[at]:
            if b != s and not any(b == y for _, y in path):
                walk(b, path + [(at, b)], cost + k)

    walk(s, [], 0)
    least = min(w[0] for w in ways)
    hops = min(w[1] for w in ways if w[0] == least)
    # signaling again does not prefer the fewest hops
    want = {w[2] for w in ways if w[0] == least and (c.prop == "C09" or w[1] == hops)}
    c.check(set(seen) == want, lambda: "in %d updates the LSP took %s; the ways that tie for it are %s" % (rounds, sorted(seen.items()), sorted(want)))
    c.n["tie_sets_compared"] += 1
    c.keys.add(digest([sp, "ties"]))


def crowded_group(c):
    """One large group of LSPs over a single way: how many get on, and how many sign up for more."""
    rng = c.rng
    kind = rng.choice(["flex", "perf", "plm", "model"])
    n = rng.randint(13, 48)
    hops = rng.randint(1, 3)
    each = rng.choice([1, 2, 4, 10])
    sp = S.new_spec(kind)
    names = gen.node_names(rng, hops + 1, "pop")
    for x in names:
        S.add_node(sp, x)
    big = rng.choice([0, 0, 1, 3])
    if big:
        # some of the group ask for more than there is; the others get on and all sign up for their share
        m, cap = n - big, 4 * n * each
        up = m
    else:
        m = n - rng.randint(1, 4)
        part = rng.randint(2 * m, 38 * m) / (40.0 * m)
        up = part * m / (n - m)
        if abs(up - round(up)) < 0.1:
            return False
        up, cap = int(up), each * (m + part)
    tight = rng.randrange(hops)
    for i in range(hops):
        S.add_circuit(sp, i + 1, names[i], names[i + 1], "u%d" % i, "v%d" % i, 5, 5, cap if i == tight else cap * 3)
    parts = rng.choice([1, 1, 4, 32, 128 if n < 26 else 64])
    for i in range(parts):
        S.add_demand(sp, names[0], names[-1], each * n / float(parts), "d%d" % i)
    for i in range(n):
        S.add_lsp(sp, names[0], names[-1], "l%d" % i, cap * 5 if i < big else None)
    s = Session(c, sp, "ctor")
    s.update()
    total = float(each * n)
    got = [(l.path, l.reserved_bandwidth) for l in s.m.rsvp_lsp_objects]
    on = [b for p, b in got if "Unrouted" not in p]
    c.check(len(on) == m, lambda: "%d of a group of %d LSPs are routed, %d fit" % (len(on), n, m))
    more = [b for b in on if abs(b - total / m) < 1e-3]
    less = [b for b in on if abs(b - total / n) < 1e-3]
    c.check(len(more) == up and len(less) == m - up, lambda: "of %d routed LSPs %d reserve %s and %d reserve %s; there is room for %d of the former" % (
        len(on), len(more), total / m, len(less), total / n, up))
    for l in s.m.rsvp_lsp_objects:
        if "Unrouted" not in l.path:
            t = l.traffic_on_lsp(s.m)
            c.check(abs(t - total / m) < 1e-3, lambda: "LSP %s carries %s, its share is %s" % (l.lsp_name, t, total / m))
    c.n["crowded_groups"] += 1
    c.n["updates_with_resignaling"] += 1
    c.keys.add(digest([sp, "group"]))
    return True


def run(c):
    if c.prop in ("C07", "C09") and c.idx % (61 if c.prop == "C09" else 127) == 21 and crowded_group(c):
        return
    if c.prop in ("C08", "C09") and c.idx % 61 == 3:
        return ties(c)
    sp = make(c)
    hit = HIT[c.prop]

    def on_update(obs, delta):
        if any(delta.get(h) for h in hit):
            c.keys.add(digest([sorted((str(k), str(v)) for k, v in obs.ifaces.items()), sorted(map(str, obs.demands)), sorted((str(k), str(v)) for k, v in obs.lsps.items())]))

    mon = Monitor(ASPECT[c.prop], lookups=c.prop in ("C13", "C10"), on_update=on_update,
                  rsvp_budget=6000 if c.prop in ("C07", "C08", "C09") else 50)
    try:
        with mon:
            s = Session(c, sp, pick_build(c.rng, sp))
            s.update()
            r = c.rng.random()
            steps = 0 if r < 0.45 else c.rng.randint(1, 8)
            if c.prop == "C03":
                steps = c.rng.randint(2, 12)
            menu = s.FAIL * 2 + s.CONF
            if c.prop == "C10":
                menu = menu + ["metric"] * 4
            if c.prop == "C03" or c.rng.random() < 0.2:
                menu = menu + s.SRLG * 2
            if c.prop == "C03" or c.rng.random() < 0.1:
                menu = menu + s.MARK * 2
            for _ in range(steps):
                if s.step(menu) and c.rng.random() < 0.6:
                    s.update()
                if mon.violations():
                    break
            if steps:
                s.update()
    finally:
        c.n.update(mon.rep.n)
        for a, m in mon.violations():
            c.bad("[%s] %s" % (a, m))
