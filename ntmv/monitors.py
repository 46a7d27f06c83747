"""Runtime monitors.

A Monitor wraps the simulation update of the model classes from outside. Every time an update
returns (a quiescent point) it reads the model's public state and lets the oracle decide it. The
workload is ordinary client code; it does not know it is being observed."""
from collections import Counter
from fractions import Fraction as Fr

from . import env
from .observe import observe, lkey
from .oracle import Net, Rsvp, TooMany, expect_demand, group_lsps, effective_metric, fr

ALL = ("igp", "split", "failed", "lspacct", "lspcspf", "lspbw", "steer", "shortcut", "detail", "lookup")


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Report(object):
    def __init__(self):
        self.v = []      # (aspect, message)
        self.n = Counter()

    def bad(self, aspect, msg):
        if len(self.v) < 60:
            self.v.append((aspect, msg))


def grid(x, digits):
    y = Fr(x) * 10**digits
    return y.denominator == 1


def check_model(model, obs=None, rep=None, rsvp_budget=4000, lookups=True):
    """Decide every aspect of a just-simulated model."""
    rep = rep or Report()
    obs = obs or observe(model)
    net = Net(obs)
    flex = obs.flex
    groups = group_lsps(obs)
    n = rep.n
    n["updates_observed"] += 1
    pairs = {k[:2] for k in obs.demands} | {k[:2] for k in obs.lsps}
    if len({"-".join(x) for x in pairs}) < len(pairs):
        n["updates_with_colliding_pairs"] += 1
    check_failed(net, obs, rep)
    check_lsps(model, net, obs, rep, groups, rsvp_budget)
    check_demands(net, obs, rep, groups, flex)
    if lookups:
        check_lookups(model, net, obs, rep, groups, flex)
    return rep


def check_failed(net, obs, rep):
    """C03: failed elements carry nothing, report Down; circuit ends agree."""
    n = rep.n
    bad = rep.bad
    fi = {k for k, v in obs.ifaces.items() if v["failed"]}
    fn = {k for k, v in obs.nodes.items() if v["failed"]}
    if fi or fn:
        n["updates_with_failures"] += 1
    for k, v in obs.ifaces.items():
        n["interfaces_checked"] += 1
        if (k[0] in fn or v["remote"] in fn) and not v["failed"]:
            bad("failed", "interface %s works although node %s or %s is failed" % (k, k[0], v["remote"]))
        if v["failed"]:
            if v["traffic"] != "Down":
                bad("failed", "failed interface %s reports traffic %r" % (k, v["traffic"]))
            if v["util"] != "Int is down":
                bad("failed", "failed interface %s reports utilization %r" % (k, v["util"]))
            if v["reserved"] != 0:
                bad("failed", "failed interface %s has reserved bandwidth %r" % (k, v["reserved"]))
        else:
            if not isnum(v["traffic"]) or v["traffic"] < -1e-9:
                bad("failed", "working interface %s reports traffic %r" % (k, v["traffic"]))
            if not isnum(v["util"]):
                bad("failed", "working interface %s reports utilization %r" % (k, v["util"]))
    seen = Counter()
    for a, b in obs.circuits:
        seen[a] += 1
        seen[b] += 1
        if a not in obs.ifaces or b not in obs.ifaces:
            bad("failed", "circuit of unknown interfaces %s %s" % (a, b))
            continue
        if obs.ifaces[a]["failed"] != obs.ifaces[b]["failed"]:
            bad("failed", "circuit ends %s/%s differ: failed %s/%s" % (a, b, obs.ifaces[a]["failed"], obs.ifaces[b]["failed"]))
        if obs.ifaces[a]["remote"] != b[0] or obs.ifaces[b]["remote"] != a[0]:
            bad("failed", "circuit %s/%s joins interfaces that do not face each other" % (a, b))
    for k in obs.ifaces:
        if seen[k] != 1:
            bad("failed", "interface %s is in %d circuits" % (k, seen[k]))
    for dk, d in obs.demands.items():
        if isinstance(d["path"], list):
            if dk[0] in fn or dk[1] in fn:
                if dk[0] != dk[1]:
                    bad("failed", "demand %s of a failed node is routed" % (dk,))
            for p in d["path"]:
                for x in p:
                    if x[0] == "I" and x[1:] in fi:
                        bad("failed", "demand %s routed over failed interface %s" % (dk, x[1:]))
                    if x[0] == "L" and (x[1:] not in obs.lsps or obs.lsps[x[1:]]["path"] is None):
                        bad("failed", "demand %s rides unrouted or absent LSP %s" % (dk, x[1:]))
    for lk, x in obs.lsps.items():
        if x["path"] is not None:
            if lk[0] in fn or lk[1] in fn:
                bad("failed", "LSP %s of a failed node is routed" % (lk,))
            for i in x["path"]:
                if i in fi:
                    bad("failed", "LSP %s routed over failed interface %s" % (lk, i))


def check_lsps(model, net, obs, rep, groups, rsvp_budget):
    n, bad = rep.n, rep.bad
    res = {k: Fr(0) for k in obs.ifaces}
    sane = True
    for lk, x in sorted(obs.lsps.items()):
        if x["path"] is None:
            n["lsps_unrouted"] += 1
            if x["raw"] != "Unrouted":
                bad("lspcspf", "LSP %s has path %r after an update" % (lk, x["raw"]))
            if x["reserved"] != "Unrouted":
                bad("lspacct", "unrouted LSP %s reserves %r" % (lk, x["reserved"]))
            continue
        n["lsps_routed"] += 1
        u = lk[0]
        ok = bool(x["path"])
        for i in x["path"]:
            if i not in obs.ifaces or i[0] != u:
                ok = False
                break
            u = net.remote[i]
        if not ok or u != lk[1]:
            bad("lspcspf", "LSP %s path %s is not a path from %s to %s" % (lk, x["path"], lk[0], lk[1]))
            sane = False
            continue
        c = sum(net.cost[i] for i in x["path"])
        if x["cost"] != c:
            bad("lspcspf", "LSP %s records path cost %s, is %s" % (lk, x["cost"], c))
        if not isnum(x["reserved"]) or x["reserved"] < 0:
            bad("lspacct", "routed LSP %s reserves %r" % (lk, x["reserved"]))
            sane = False
            continue
        if not isnum(x["setup"]) or abs(x["setup"] - x["reserved"]) > 1e-6 * max(1, abs(x["reserved"])):
            bad("lspbw", "routed LSP %s reserves %s but reports setup bandwidth %s" % (lk, x["reserved"], x["setup"]))
        for i in x["path"]:
            res[i] += Fr(x["reserved"])
            if obs.ifaces[i]["rsvp"] is not True:
                bad("lspacct", "LSP %s crosses interface %s that does not allow RSVP" % (lk, i))
    for k, v in obs.ifaces.items():
        want = float(res[k])
        tol = 0.0501 if not grid(res[k].limit_denominator(10**6), 1) else 1e-6 * max(1, want)
        if not isnum(v["reserved"]) or abs(v["reserved"] - want) > tol:
            bad("lspacct", "interface %s reports %r reserved; its LSPs reserve %s" % (k, v["reserved"], want))
        if res[k] > net.budget[k] + Fr(1, 10**5):
            bad("lspacct", "interface %s: %s reserved of %s reservable" % (k, want, float(net.budget[k])))
        if v["rsvp"] is True:
            left = float(net.budget[k] - res[k])
            if not isnum(v["reservable"]) or abs(v["reservable"] - left) > 0.1002:
                bad("lspacct", "interface %s reports %r reservable; %s is left" % (k, v["reservable"], left))
            elif isnum(v["reserved"]) and abs(v["reservable"] - (float(net.budget[k]) - v["reserved"])) > 0.0501:
                bad("lspacct", "interface %s: reservable %r and reserved %r do not add up to %s" % (k, v["reservable"], v["reserved"], float(net.budget[k])))
        elif v["reservable"] != -1.0:
            bad("lspacct", "interface %s does not allow RSVP but reports %r reservable" % (k, v["reservable"]))
    if not obs.lsps or not sane:
        return
    # order-free bounds: valid whatever the signaling order, when nothing resignals
    r = Rsvp(net, obs, rsvp_budget)
    partial_auto = False
    for g, ls in r.groups.items():
        routed = [k for k in ls if obs.lsps[k]["path"] is not None]
        if 0 < len(routed) < len(ls) and any(obs.lsps[k]["conf"] is None for k in routed):
            partial_auto = True
    if not partial_auto:
        for lk, x in obs.lsps.items():
            bw = r.ask(lk)
            n["lsp_orderfree_checked"] += 1
            if x["path"] is None:
                c = net.sp_cost(lk[0], lk[1], r.feasible(res, bw))
                if c is not None:
                    bad("lspcspf", "LSP %s is unrouted although a path with its bandwidth %s is available at the end" % (lk, float(bw)))
            else:
                if abs(x["reserved"] - float(bw)) > 1e-6 * max(1.0, float(bw)):
                    bad("lspbw", "LSP %s reserves %s, should reserve %s" % (lk, x["reserved"], float(bw)))
                c = net.sp_cost(lk[0], lk[1], r.feasible(res, bw, (x["path"], fr(x["reserved"]))))
                mine = sum(net.cost[i] for i in x["path"])
                if c is not None and c < mine:
                    bad("lspcspf", "LSP %s has cost %s; a path of cost %s with its bandwidth was available throughout" % (lk, mine, c))
    else:
        n["updates_with_resignaling"] += 1
    hint = None
    try:
        hint = []
        for k, ls in model.parallel_lsp_groups().items():
            ends = {}
            for x in ls:
                ends.setdefault(lkey(x)[:2], []).append(lkey(x))
            hint.extend(ends.items())
    except Exception:  # the hint only speeds the search up
        hint = None
    try:
        out = r.solve(hint)
    except TooMany:
        n["rsvp_inconclusive"] += 1
        return
    n["rsvp_search_steps"] += out.steps
    if out.verdict == "ok":
        n["rsvp_explained"] += 1
        n["lsps_resignaled"] += out.resignaled
        n["lsp_ties"] += out.ties
    elif out.verdict == "unknown":
        n["rsvp_inconclusive"] += 1
    else:
        why = out.why
        aspect = "lspcspf"
        if "reserves" in why or "asked for" in why or "larger share" in why or "could not move" in why:
            aspect = "lspbw"
        if "headroom" in why:
            aspect = "lspacct"
        bad(aspect, "no signaling order and tie-break explains the LSPs: %s" % why)


def check_demands(net, obs, rep, groups, flex):
    n, bad = rep.n, rep.bad
    load = {k: Fr(0) for k in obs.ifaces}
    slack = {k: 0.0 for k in obs.ifaces}
    blind = False
    rep.expect = {}
    for dk, d in sorted(obs.demands.items()):
        n["demands_checked"] += 1
        try:
            e = expect_demand(net, obs, dk, groups, flex)
        except TooMany:
            blind = True
            n["demands_too_large"] += 1
            continue
        n["demand_" + e.how.replace("-", "_")] += 1
        if e.how == "too-large":  # no expectation: nothing is judged by it
            blind = True
            continue
        rep.expect[dk] = e
        t = fr(d["t"])
        path = d["path"]
        if e.how == "unrouted":
            if path != "Unrouted":
                bad("igp", "demand %s is routed over %s although there is no path" % (dk, path))
                if rides(path):
                    bad(rides(path), "demand %s rides LSPs, %s, that cannot carry it" % (dk, short(path)))
            if isinstance(d["detail"], dict):
                bad("detail", "unrouted demand %s has path detail %s" % (dk, short(d["detail"])))
            continue
        aspect = {"igp": "igp", "igp-large": "igp", "local": "igp", "lsp": "steer", "shortcut": "shortcut"}[e.how]
        if not isinstance(path, list):
            bad(aspect, "demand %s is %r although it has %s" % (dk, path, e.paths and e.paths[0]))
            blind = True
            continue
        if e.paths is not None:
            n["paths_compared"] += len(e.paths)
            if len(e.paths) > 1:
                n["multipath_demands"] += 1
            got, want = sorted(path), sorted(e.paths)
            if got != want:
                extra = [p for p in got if p not in e.paths]
                miss = [p for p in want if p not in path]
                bad(aspect, "demand %s: unexpected paths %s, missing paths %s, %d reported for %d expected" % (
                    dk, extra[:3], miss[:3], len(got), len(want)))
                if aspect != "shortcut" and rides(extra) not in (None, aspect):
                    bad(rides(extra), "demand %s rides LSPs, %s, that are not for it" % (dk, short(extra)))
            check_detail(dk, d, e, t, rep)
        else:
            if len(path) != net.count_paths(dk[0], dk[1]):
                bad("igp", "demand %s has %d paths, expected %d" % (dk, len(path), net.count_paths(dk[0], dk[1])))
        # loads
        for x, f in e.item.items():
            amt = f * t
            if x[0] == "I":
                load[x[1:]] += amt
                if not flex:
                    cnt = sum(1 for p in e.paths if x in p) if e.paths is not None else len(path)
                    exact = grid(amt, 1) and e.paths is not None and all(grid(e.share[p] * t, 4) for p in e.paths)
                    slack[x[1:]] += 1e-7 if exact else 0.0501 + cnt * 6e-5
            else:
                for i in obs.lsps[x[1:]]["path"]:
                    if i not in load:
                        continue
                    load[i] += amt
                    if e.how == "shortcut" and not grid(amt, 1):
                        slack[i] += 0.0501
    if blind:
        n["load_checks_skipped"] += 1
        return
    for k, v in obs.ifaces.items():
        if v["failed"]:
            continue
        want = float(load[k])
        tol = slack[k] + 1e-6 * max(1.0, want)
        n["loads_compared"] += 1
        if want:
            n["loads_nonzero"] += 1
        if not isnum(v["traffic"]) or abs(v["traffic"] - want) > tol:
            bad("split", "interface %s carries %r, demands put %s on it" % (k, v["traffic"], want))
        elif isnum(v["util"]):
            u = v["traffic"] / v["cap"] * 100
            if abs(v["util"] - u) > 0.00501 + 1e-9 * abs(u):
                bad("split", "interface %s: utilization %s for traffic %s of %s" % (k, v["util"], v["traffic"], v["cap"]))
        else:
            bad("split", "interface %s: utilization %r" % (k, v["util"]))


def rides(paths):
    """Which property is about the LSPs in these paths, if there are any."""
    if not isinstance(paths, list) or not any(x[0] == "L" for p in paths for x in p):
        return None
    return "steer" if all(len(p) == 1 for p in paths if any(x[0] == "L" for x in p)) else "shortcut"


def short(x):
    s = str(x)
    return s if len(s) < 300 else s[:300] + "..."


def check_detail(dk, d, e, t, rep):
    bad = rep.bad
    det = d["detail"]
    if not isinstance(det, dict):
        bad("detail", "routed demand %s has path detail %r" % (dk, det))
        return
    rep.n["details_checked"] += 1
    items = []
    tot = 0.0
    for k, v in det.items():
        if v["items"] is None or not isnum(v["traffic"]):
            bad("detail", "demand %s: malformed detail entry %s" % (dk, short(v)))
            return
        items.append(v["items"])
        tot += v["traffic"]
        share = e.share.get(v["items"])
        tol = 6e-5 + 1e-6 * float(t)
        if share is None:
            bad("detail", "demand %s: detail lists path %s that it does not take" % (dk, v["items"]))
            continue
        if abs(v["traffic"] - float(share * t)) > tol:
            bad("detail", "demand %s: path %s carries %s, detail says %s" % (dk, v["items"], float(share * t), v["traffic"]))
        if v["splits"] is not None:
            want = dict(zip(v["items"], e.splits[v["items"]]))
            if v["splits"] != want:
                bad("detail", "demand %s: splits %s on path %s, expected %s" % (dk, v["splits"], v["items"], want))
    if sorted(items) != sorted(d["path"]):
        bad("detail", "demand %s: detail lists %d paths %s, demand has %s" % (dk, len(items), short(items), short(d["path"])))
    if abs(tot - float(t)) > 6e-5 * len(items) + 1e-6 * float(t):
        bad("detail", "demand %s: detail paths carry %s of %s" % (dk, tot, float(t)))


def call(rep, what, f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception as ex:  # an error here is a finding, not a harness problem
        rep.bad("lookup", "%s raised %s: %s" % (what, type(ex).__name__, short(ex)))
        return None
    if r is None:
        rep.bad("lookup", "%s answered nothing" % what)
    return r


def check_lookups(model, net, obs, rep, groups, flex):
    """C13: reverse lookups and diagnostics."""
    from .observe import dkey, ikey
    bad, n = rep.bad, rep.n
    on_iface = {k: set() for k in obs.ifaces}
    on_lsp = {k: {} for k in obs.lsps}
    lsps_iface = {k: set() for k in obs.ifaces}
    for lk, x in obs.lsps.items():
        for i in x["path"] or ():
            if i in lsps_iface:
                lsps_iface[i].add(lk)
    riding = set()
    unrouted = set()
    for dk, d in obs.demands.items():
        if not isinstance(d["path"], list):
            unrouted.add(dk)
            continue
        for p in d["path"]:
            for x in p:
                if x[0] == "I":
                    on_iface.setdefault(x[1:], set()).add(dk)
                elif x[0] == "L":
                    riding.add(dk)
                    on_lsp.setdefault(x[1:], {})[dk] = True
                    for i in (obs.lsps.get(x[1:], {}).get("path") or ()):
                        on_iface.setdefault(i, set()).add(dk)

    def same(what, got, want):
        n["lookups_compared"] += 1
        got = list(got)
        if len(got) != len(set(got)):
            bad("lookup", "%s lists something twice: %s" % (what, short(got)))
        if set(got) != set(want):
            bad("lookup", "%s: unexpected %s, missing %s" % (
                what, short(sorted(set(got) - set(want))), short(sorted(set(want) - set(got)))))

    # Each interface's demands are found by going through all paths; with very many of them, ask only some interfaces.
    hops = {k: len(x["path"] or ()) for k, x in obs.lsps.items()}
    size = sum(hops.get(x[1:], 1) + 1 for d in obs.demands.values() if isinstance(d["path"], list) for p in d["path"] for x in p)
    step = 1 + len(obs.ifaces) * size // 1000000
    for j, i in enumerate(model.interface_objects):
        k = ikey(i)
        r = call(rep, "interface.demands", i.demands, model) if j % step == 0 else None
        if r is not None:
            same("demands on interface %s" % (k,), [dkey(x) for x in r], on_iface[k])
        r = call(rep, "interface.lsps", i.lsps, model)
        if r is not None:
            same("LSPs on interface %s" % (k,), [lkey(x) for x in r], lsps_iface[k])
        r = call(rep, "interface.get_circuit_object", i.get_circuit_object, model)
        if r is not None:
            ends = {ikey(r.interface_a), ikey(r.interface_b)}
            if k not in ends:
                bad("lookup", "circuit of interface %s is %s" % (k, ends))
            f = call(rep, "circuit.failed", r.failed, model)
            if f is not None and f != any(obs.ifaces[y]["failed"] for y in ends):
                bad("lookup", "circuit %s failed() is %r" % (ends, f))
            f = call(rep, "circuit.circuit_id", r.circuit_id)
            if f is not None and f != obs.ifaces[k]["ckt"]:
                bad("lookup", "circuit %s circuit_id() is %r, its interfaces have %r" % (ends, f, obs.ifaces[k]["ckt"]))
        r = call(rep, "interface.get_remote_interface", i.get_remote_interface, model)
        if r is not None:
            pairs = dict(obs.circuits)
            pairs.update({b: a for a, b in obs.circuits})
            if pairs.get(k) != ikey(r):
                bad("lookup", "remote interface of %s is %s, its circuit's other end is %s" % (k, ikey(r), pairs.get(k)))
    # The traffic on an LSP is found by the metrics of its group: ask only some LSPs if that is too much.
    alike = Counter(k[:2] for k in obs.lsps)
    work = sum(2 * v * v for v in alike.values())
    lstep = 1 + work * len(obs.nodes) // 40000
    for j, x in enumerate(model.rsvp_lsp_objects):
        k = lkey(x)
        r = call(rep, "lsp.demands_on_lsp", x.demands_on_lsp, model)
        if r is not None:
            same("demands on LSP %s" % (k,), [dkey(y) for y in r], on_lsp[k])
        r = call(rep, "lsp.traffic_on_lsp", x.traffic_on_lsp, model) if j % lstep == 0 else None
        want, tol = Fr(0), 1e-6
        known = True
        for dk in on_lsp[k]:
            e = rep.expect.get(dk) if hasattr(rep, "expect") else None
            if e is None:
                known = False
                continue
            want += e.item.get(("L",) + k, Fr(0)) * fr(obs.demands[dk]["t"])
            tol += 1e-4 * 8
        if r is not None and known and (not isnum(r) or abs(r - float(want)) > tol + 1e-6 * float(want)):
            bad("lookup", "traffic on LSP %s is %r, its demands put %s on it" % (k, r, float(want)))
        r = call(rep, "lsp.effective_metric", x.effective_metric, model)
        w = effective_metric(net, obs, k) if (obs.lsps[k]["manual"] != "not set" or obs.lsps[k]["path"] is not None) else "Unrouted"
        if r is not None and r != w:
            bad("steer", "effective metric of LSP %s is %r, expected %r" % (k, r, w))
        r = call(rep, "lsp.topology_metric", x.topology_metric, model)
        p = obs.lsps[k]["path"]
        w = "Unrouted" if p is None else sum(net.cost.get(i, 0) for i in p)
        if r is not None and r != w:
            bad("steer", "topology metric of LSP %s is %r, expected %r" % (k, r, w))
        n["lsp_lookups"] += 1

    diag = call(rep, "simulation_diagnostics", model.simulation_diagnostics)
    if diag is not None:
        routed = [k for k in obs.lsps if obs.lsps[k]["path"] is not None]
        used = [k for k in routed if on_lsp[k]]
        idle = [k for k in routed if not on_lsp[k]]
        want = {
            "Number of routed LSPs carrying Demands": len(used),
            "Number of routed LSPs with no Demands": len(idle),
            "Number of Demands riding LSPs": len(riding),
            "Number of Demands not riding LSPs": len(obs.demands) - len(riding),
            "Number of unrouted LSPs": len(obs.lsps) - len(routed),
            "Number of unrouted Demands": len(unrouted),
        }
        for k, w in want.items():
            if diag.get(k) != w:
                bad("lookup", "diagnostics: %s is %r, expected %r" % (k, diag.get(k), w))
        try:
            same("diagnostics: idle LSPs", [lkey(x) for x in diag["routed LSPs with no demands generator"]], idle)
            same("diagnostics: used LSPs", [lkey(x) for x in diag["routed LSPs with demands generator"]], used)
            same("diagnostics: demands on LSPs", [dkey(x) for x in diag["demands riding LSPs generator"]], riding)
        except Exception as ex:
            bad("lookup", "diagnostics lists raised %s: %s" % (type(ex).__name__, ex))

    def chk(what, f, conv, want):
        r = call(rep, what, f)
        if r is not None:
            same(what, [conv(x) for x in r], want)

    nm = lambda x: x.name  # noqa: E731
    chk("unrouted demands", model.get_unrouted_demand_objects, dkey, unrouted)
    fi = {k for k in obs.ifaces if obs.ifaces[k]["failed"]}
    fn = {k for k in obs.nodes if obs.nodes[k]["failed"]}
    chk("failed interfaces", model.get_failed_interface_objects, ikey, fi)
    chk("working interfaces", model.get_unfailed_interface_objects, ikey, set(obs.ifaces) - fi)
    chk("failed nodes", model.get_failed_node_objects, nm, fn)
    chk("working nodes", model.get_non_failed_node_objects, nm, set(obs.nodes) - fn)
    orphans = set(obs.nodes) - {k[0] for k in obs.ifaces}
    chk("orphan nodes", model.get_orphan_node_objects, nm, orphans)
    for node in model.node_objects:
        nn = node.name
        mine = {k for k in obs.ifaces if k[0] == nn}
        chk("interfaces of node %s" % nn, lambda: node.interfaces(model), ikey, mine)
        chk("get_node_interfaces %s" % nn, lambda: model.get_node_interfaces(nn), ikey, mine)
        chk("neighbours of node %s" % nn, lambda: node.adjacent_nodes(model), nm, {net.remote[k] for k in mine})
        chk("demands from %s" % nn, lambda: model.get_demand_objects_source_node(nn), dkey, {k for k in obs.demands if k[0] == nn})
        chk("demands to %s" % nn, lambda: model.get_demand_objects_dest_node(nn), dkey, {k for k in obs.demands if k[1] == nn})
        r = call(rep, "is_node_an_orphan", model.is_node_an_orphan, node)
        if r is not None and bool(r) != (nn in orphans):
            bad("lookup", "is_node_an_orphan(%s) is %r" % (nn, r))
    # Groups of pairs whose names read the same once joined may be one group.
    def same(groups, want):
        got = sorted(tuple(sorted(v)) for v in groups)
        apart, joined = {}, {}
        for k in want:
            apart.setdefault((k[0], k[1]), []).append(k)
            joined.setdefault("%s-%s" % (k[0], k[1]), []).append(k)
        return any(got == sorted(tuple(sorted(v)) for v in w.values()) for w in (apart, joined))

    r = call(rep, "parallel_demand_groups", model.parallel_demand_groups)
    if r is not None and not same([[dkey(x) for x in v] for v in r.values()], obs.demands):
        bad("lookup", "parallel demand groups are %s" % short(r))
    r = call(rep, "parallel_lsp_groups", model.parallel_lsp_groups)
    if r is not None and not same([[lkey(x) for x in v] for v in r.values()], obs.lsps):
        bad("lookup", "parallel LSP groups are %s" % short(r))


class Monitor(object):
    """Installs itself around update_simulation of both model classes."""

    def __init__(self, aspects=ALL, rsvp_budget=4000, lookups=True, on_update=None):
        self.aspects = set(aspects)
        self.on_update = on_update
        self.rep = Report()
        self.seen = 0
        self.rsvp_budget = rsvp_budget
        self.lookups = lookups
        self.enabled = True

    def __enter__(self):
        mon = self
        self._saved = []
        for cls in (env.FlexModel, env.PerformanceModel):
            orig = cls.__dict__.get("update_simulation")
            if orig is None:  # inherited: wrap what the class resolves to
                orig = cls.update_simulation
            self._saved.append((cls, cls.__dict__.get("update_simulation")))

            def wrapper(model, *a, __orig=orig, **k):
                r = __orig(model, *a, **k)
                if mon.enabled:
                    mon.seen += 1
                    before = Counter(mon.rep.n)
                    obs = observe(model)
                    check_model(model, obs=obs, rep=mon.rep, rsvp_budget=mon.rsvp_budget, lookups=mon.lookups)
                    if mon.on_update is not None:
                        mon.on_update(obs, mon.rep.n - before)
                return r

            cls.update_simulation = wrapper
        return self

    def __exit__(self, *a):
        for cls, orig in self._saved:
            if orig is None:
                del cls.update_simulation
            else:
                cls.update_simulation = orig
        return False

    def violations(self):
        return [(a, m) for a, m in self.rep.v if a in self.aspects]
