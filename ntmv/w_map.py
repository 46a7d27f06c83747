"""C21: the weather map, through its element builder, its lists and its web callbacks."""
import json

from . import spec as S
from .drive import Session
from .observe import observe, ikey, dkey, lkey
from .spec import digest
from .w_routing import make, pick_build

BAD = ["royalblue", "green", "yellow", "orangered", "darkred", "darkviolet", "dimgrey"]


def colour(util):
    if util == "Int is down":
        return "dimgrey"
    for top, name in ((25, "royalblue"), (50, "green"), (75, "yellow"), (90, "orangered"), (100, "darkred")):
        if util < top:
            return name
    return "darkviolet"


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def check_elements(c, m, wm, obs):
    els = c.must("create_elements", wm.create_elements)
    f = wm.spacing_factor
    nodes = [e for e in els if "source" not in e["data"]]
    edges = [e["data"] for e in els if "source" in e["data"]]
    mids = {}
    for e in nodes:
        d = e["data"]
        if d["group"] == "midpoint":
            mids.setdefault(d["id"], []).append(e)
            continue
        n = obs.nodes.get(d["id"])
        c.n["map_nodes_checked"] += 1
        if not c.check(n is not None, lambda: "map shows a node %s the model does not have" % d["id"]):
            continue
        c.check(d["label"] == d["id"] and d["failed"] == str(n["failed"]), lambda: "map node %s is shown as %s, failed %s" % (d["id"], d, n["failed"]))
        c.check(close(e["position"]["x"], n["lon"] * f) and close(e["position"]["y"], -n["lat"] * f),
                lambda: "map node %s (lat %s, lon %s) is at %s" % (d["id"], n["lat"], n["lon"], e["position"]))
    shown = {e["data"]["id"] for e in nodes if e["data"]["group"] != "midpoint"}
    want = {k[0] for k in obs.ifaces}
    c.check(shown == want, lambda: "map shows nodes %s, circuits have %s" % (sorted(shown), sorted(want)))
    by = {}
    for e in edges:
        by.setdefault((e["source"], e["interface-name"]), []).append(e)
    c.check(set(by) == set(obs.ifaces) and all(len(v) == 1 for v in by.values()), lambda: "edges %s for interfaces %s" % (
        sorted((k, len(v)) for k, v in by.items())[:6], sorted(obs.ifaces)[:6]))
    c.check(len(edges) == len(obs.ifaces), "%d edges for %d interfaces" % (len(edges), len(obs.ifaces)))
    for a, b in obs.circuits:
        if a not in by or b not in by:
            continue
        ea, eb = by[a][0], by[b][0]
        c.check(ea["target"] == eb["target"], lambda: "the edges of circuit %s %s end on %s and %s" % (a, b, ea["target"], eb["target"]))
        for k, e in ((a, ea), (b, eb)):
            v = obs.ifaces[k]
            c.n["edges_checked"] += 1
            c.n["edges_" + colour(v["util"])] += 1
            c.check(e["capacity"] == v["cap"] and e["cost"] == v["cost"] and e["circuit_id"] == str(v["ckt"]) and e["utilization"] == v["util"],
                    lambda: "edge of interface %s shows %s, the interface has %s" % (k, e, v))
            c.check(e["group"] == colour(v["util"]), lambda: "edge of interface %s at utilization %s is %s, expected %s" % (k, v["util"], e["group"], colour(v["util"])))
        na, nb = obs.nodes[a[0]], obs.nodes[b[0]]
        c.check(ea["target"] not in obs.nodes, lambda: "circuit %s is drawn through the node %s" % (a, ea["target"]))
        mid = mids.get(ea["target"])
        if not c.check(mid is not None, lambda: "no midpoint %s for circuit %s" % (ea["target"], a)):
            continue
        for e in mid:
            c.check(sorted(e["data"].get("neighbors", [])) == sorted([a[0], b[0]]), lambda: "midpoint of %s-%s has neighbours %s" % (a[0], b[0], e["data"].get("neighbors")))
            c.check(close(e["position"]["x"], (na["lon"] + nb["lon"]) * f / 2) and close(e["position"]["y"], -(na["lat"] + nb["lat"]) * f / 2),
                    lambda: "midpoint of %s-%s is at %s" % (a[0], b[0], e["position"]))


def check_lists(c, m, wm, obs):
    for typ, keys, both in (("demand", obs.demands, wm.demand_sources_and_destinations), ("lsp", obs.lsps, wm.lsp_sources_and_destinations)):
        src, dst = c.must("%s sources and destinations" % typ, both)
        c.check(src == sorted({k[0] for k in keys}), lambda: "%s sources %s, expected %s" % (typ, src, sorted({k[0] for k in keys})))
        c.check(dst == sorted({k[1] for k in keys}), lambda: "%s destinations %s, expected %s" % (typ, dst, sorted({k[1] for k in keys})))
        for n in obs.nodes:
            g = c.must("get_sources", wm.get_sources, n, typ)
            w = sorted({k[0] for k in keys if k[1] == n})
            c.check(sorted(g) == w, lambda: "get_sources(%s, %s) is %s, expected %s" % (n, typ, g, w))
            g = c.must("get_destinations", wm.get_destinations, n, typ)
            w = sorted({k[1] for k in keys if k[0] == n})
            c.check(sorted(g) == w, lambda: "get_destinations(%s, %s) is %s, expected %s" % (n, typ, g, w))
            c.n["lists_compared"] += 2
    g = c.must("make_node_list", wm.make_node_list)
    c.check(g == [{"label": n, "value": n} for n in sorted(obs.nodes)], lambda: "node list is %s" % g)


def demand_parts(obs, keys):
    ifs, lsps = set(), set()
    for k in keys:
        p = obs.demands[k]["path"]
        if not isinstance(p, list):
            continue
        for one in p:
            for x in one:
                if x[0] == "I":
                    ifs.add(x[1:])
                else:
                    lsps.add(x[1:])
                    ifs |= set(obs.lsps[x[1:]]["path"])
    return ifs, lsps


def check_paths(c, m, wm, obs):
    rng = c.rng
    routed = sorted((d for d in m.demand_objects if isinstance(d.path, list)), key=dkey)
    every = sorted(m.demand_objects, key=dkey)
    lists = [[d] for d in routed[:6]] + [[d] for d in every if d not in routed][:2]
    if len(every) > 1:
        lists += [rng.sample(every, rng.randint(2, len(every))), rng.sample(every, rng.randint(2, len(every)))]
    for some in lists:
        gi, gl = c.must("find_demand_interfaces_and_lsps", wm.find_demand_interfaces_and_lsps, some)
        wi, wl = demand_parts(obs, [dkey(d) for d in some])
        c.n["highlights_compared"] += 1
        c.check({ikey(i) if hasattr(i, "node_object") else i for i in gi} == wi and {lkey(x) if hasattr(x, "lsp_name") else x for x in gl} == wl,
                lambda: "highlighted for %s: %s %s, expected %s %s" % (some, gi, gl, wi, wl))
    for x in sorted(m.rsvp_lsp_objects, key=lkey):
        if obs.lsps[lkey(x)]["path"] is None:
            continue
        s, d, n = lkey(x)
        gi, gn = c.must("get_lsp_interface_data", wm.get_lsp_interface_data, m, {"source": s, "dest": d, "name": n})
        p = obs.lsps[lkey(x)]["path"]
        c.n["lsp_highlights_compared"] += 1
        c.check([ikey(i) for i in gi] == p and set(gn) == {i[0] for i in p} | {obs.ifaces[i]["remote"] for i in p},
                lambda: "highlighted for LSP %s: %s %s, its path is %s" % (lkey(x), gi, gn, p))


class Web(object):
    """Talks to the weather map's own web server in process."""

    def __init__(self, c, wm):
        self.c, self.wm = c, wm
        wm.app.run_server = lambda *a, **k: None
        wm.app.run = lambda *a, **k: None
        c.must("create_weathermap", wm.create_weathermap)
        self.client = wm.app.server.test_client()
        self.deps = {d["output"]: d for d in self.client.get("/_dash-dependencies").get_json()}

    def find(self, out):
        for k, d in self.deps.items():
            if out in [x for x in k.strip(".").split("...")]:
                return k, d
        return None, None

    def fire(self, out, values, changed):
        """Fire the callback that owns output `out`; values by input "id.property". Returns
        {"id.property": value} or None when the server prevents an update."""
        key, d = self.find(out)
        if key is None:
            self.c.bad("the map has no callback for %s" % out)
            return None
        ins = [{"id": i["id"], "property": i["property"], "value": values.get("%s.%s" % (i["id"], i["property"]))} for i in d["inputs"]]
        outs = [x.rsplit(".", 1) for x in key.strip(".").split("...")]
        spec = [{"id": a, "property": b} for a, b in outs]
        body = {"output": key, "outputs": spec if key.startswith("..") else spec[0], "inputs": ins, "changedPropIds": [changed] if changed else [], "state": []}
        r = self.client.post("/_dash-update-component", json=body)
        self.c.n["callbacks_fired"] += 1
        if r.status_code == 204:
            return None
        if r.status_code != 200:
            self.c.bad("callback for %s with %s answered %s" % (out, values, r.status_code))
            return None
        res = r.get_json()["response"]
        return {"%s.%s" % (i, p): v for i, ps in res.items() for p, v in ps.items()}


def options(c, r, out):
    """The real choices of an option list (not the clearing ones), decoded."""
    got = []
    for o in (r or {}).get(out, []):
        try:
            v = json.loads(o["value"])
        except ValueError:
            continue
        if isinstance(v, dict):
            got.append(v)
    return got


def check_options(c, m, r, out, obs):
    """Every real choice of a menu is labelled as the element it stands for and describes it."""
    for o in (r or {}).get(out, []):
        try:
            v = json.loads(o["value"])
        except ValueError:
            continue
        if not isinstance(v, dict):
            continue
        c.n["menu_entries_checked"] += 1
        if "interface-name" in v:
            k = (v["source"], v["interface-name"])
            x = obs.ifaces.get(k)
            if not c.check(x is not None, lambda: "%s offers an interface %s that does not exist" % (out, v)):
                continue
            c.check((v["dest"], v["circuit_id"], v["cost"]) == (x["remote"], x["ckt"], x["cost"]), lambda: "%s offers interface %s as %s, it is %s" % (out, k, v, x))
            want = "Interface(name = %r, cost = %s, capacity = %s, node_object = Node(%r), remote_node_object = Node(%r), circuit_id = %r)" % (
                k[1], x["cost"], x["cap"], k[0], x["remote"], x["ckt"])
            c.check(o["label"] == want, lambda: "%s labels interface %s as %r" % (out, k, o["label"]))
        else:
            k = (v["source"], v["dest"], v["name"])
            if k in obs.demands and o["label"] == "Demand(source = %s, dest = %s, traffic = %s, name = %r)" % (k[0], k[1], obs.demands[k]["t"], k[2]):
                continue
            c.check(k in obs.lsps and o["label"] == "RSVP_LSP(source = %s, dest = %s, lsp_name = %r)" % k, lambda: "%s labels %s as %r" % (out, k, o["label"]))


def check_legend(c, wm, obs):
    """The ranges offered stand for the colours of the edges that fall in them."""
    for what, got in (("utilization_display_info", c.must("utilization_display_info", wm.utilization_display_info)), ("util_display_options", wm.util_display_options)):
        by = {x["value"]: x["label"] for x in got}
        for k, v in obs.ifaces.items():
            lab = by.get(colour(v["util"]))
            c.n["legend_lookups"] += 1
            if not c.check(lab is not None, lambda: "%s has no entry for the colour of interface %s" % (what, k)):
                continue
            if v["util"] == "Int is down":
                ok = lab == "failed"
            elif lab.endswith("+"):
                ok = lab[:-1].isdigit() and v["util"] >= int(lab[:-1])
            else:
                lo, _, hi = lab.partition("-")
                ok = lo.isdigit() and hi.isdigit() and int(lo) <= int(v["util"]) <= int(hi)
            c.check(ok, lambda: "%s says %r of the colour of interface %s, whose utilization is %s" % (what, lab, k, v["util"]))


def parts(tree, out):
    if isinstance(tree, dict):
        p = tree.get("props")
        if isinstance(p, dict):
            if "id" in p:
                out[p["id"]] = p
            parts(p.get("children"), out)
    elif isinstance(tree, list):
        for x in tree:
            parts(x, out)
    return out


def check_layout(c, w, wm, obs):
    """The page the server sends shows the same elements, nodes and legend."""
    r = w.client.get("/_dash-layout")
    if not c.check(r.status_code == 200, "the page layout answered %s" % r.status_code):
        return
    p = parts(r.get_json(), {})
    c.n["layouts_checked"] += 1

    def bag(els):
        return sorted(json.dumps(e, sort_keys=True) for e in els)
    g = (p.get("cytoscape-prototypes") or {}).get("elements") or []
    c.check(bag(g) == bag(json.loads(json.dumps(wm.create_elements()))), lambda: "the page shows %d elements, not those of create_elements" % len(g))
    g = (p.get("find-node") or {}).get("options")
    c.check(g == [{"label": n, "value": n} for n in sorted(obs.nodes)], lambda: "the page offers nodes %s" % g)
    g = (p.get("utilization-dropdown-callback") or {}).get("options")
    c.check(g == wm.utilization_display_info(), lambda: "the page offers utilization ranges %s" % g)
    # nothing is chosen yet: every menu can be shown, and shows no element
    for key, d in sorted(w.deps.items()):
        if "stylesheet" in key:
            continue
        out = [x for x in key.strip(".").split("...")]
        r = w.fire(out[0], {}, None) or {}
        for o in out:
            if o.endswith(".options") and not ("source-callback" in o or "destination-callback" in o):
                c.check(not options(c, r, o), lambda: "%s offers %s before anything is chosen" % (o, r.get(o)))
            elif o.endswith("-output.children"):
                v = json.loads(r.get(o) or "{}")
                c.check(not v.get("value") and "source" not in v, lambda: "%s shows %s before anything is chosen" % (o, v))


def triples(lst):
    return sorted((v["source"], v["dest"], v["name"]) for v in lst)


def ifs_of(lst):
    return sorted((v["source"], v["interface-name"]) for v in lst)


def check_web(c, m, wm, obs):
    rng = c.rng
    w = Web(c, wm)
    if c.v:
        return
    names = sorted(obs.nodes)
    # interfaces of a node
    check_layout(c, w, wm, obs)
    n = rng.choice(names)
    r = w.fire("interfaces-on-node.options", {"find-node.value": n}, "find-node.value")
    want = sorted(k for k in obs.ifaces if k[0] == n)
    check_options(c, m, r, "interfaces-on-node.options", obs)
    c.check(ifs_of(options(c, r, "interfaces-on-node.options")) == want, lambda: "interfaces listed for node %s: %s, expected %s" % (n, r, want))
    # source and destination menus
    for typ, keys in (("demand", obs.demands), ("lsp", obs.lsps)):
        if not keys:
            continue
        so, do, lo = "%s-source-callback" % typ, "%s-destination-callback" % typ, "find-%ss-callback.options" % typ
        k = rng.choice(sorted(keys))
        for src, dst in ((None, None), (k[0], None), (None, k[1]), (k[0], k[1])):
            r = w.fire(lo, {so + ".value": src, do + ".value": dst}, (so if src else do) + ".value") or {}
            match = [x for x in keys if (src is None or x[0] == src) and (dst is None or x[1] == dst)]
            ws = [src] if src else sorted({x[0] for x in match})
            wd = [dst] if dst else sorted({x[1] for x in match})
            gs = [x["value"] for x in r.get(so + ".options", [])]
            gd = [x["value"] for x in r.get(do + ".options", [])]
            c.n["menus_compared"] += 1
            c.check(gs == ws and gd == wd, lambda: "%s menus for source %s destination %s offer %s and %s, expected %s and %s" % (typ, src, dst, gs, gd, ws, wd))
            check_options(c, m, r, lo, obs)
            if src or dst:
                g = triples(options(c, r, lo))
                c.check(g == sorted(match), lambda: "%ss listed for source %s destination %s: %s, expected %s" % (typ, src, dst, g, sorted(match)))
    # a selected demand
    style = {"utilization-dropdown-callback.value": [], "cytoscape-prototypes.selectedEdgeData": None}
    base = None
    r = w.fire("cytoscape-prototypes.stylesheet", dict(style), "utilization-dropdown-callback.value")
    base = len((r or {}).get("cytoscape-prototypes.stylesheet", []))
    pick = sorted(BAD)[:rng.randint(0, 4)]
    style["utilization-dropdown-callback.value"] = pick
    r = w.fire("cytoscape-prototypes.stylesheet", dict(style), "utilization-dropdown-callback.value") or {}
    extra = r.get("cytoscape-prototypes.stylesheet", [])[base:]
    c.check([x["selector"] for x in extra] == ['edge[group="%s"]' % p for p in pick], lambda: "selected utilization colours %s style %s" % (pick, extra))
    style["utilization-dropdown-callback.value"] = []

    def styled(extra_values, changed):
        v = dict(style)
        v.update(extra_values)
        r = w.fire("cytoscape-prototypes.stylesheet", v, changed) or {}
        return {x["selector"] for x in r.get("cytoscape-prototypes.stylesheet", [])[base:]}

    def edge(node, ckt, first="circuit_id"):
        if first == "circuit_id":
            return 'edge[circuit_id="%s"][source="%s"]' % (ckt, node)
        return 'edge[source="%s"][circuit_id="%s"]' % (node, ckt)

    def selectors(ifs):
        out = set()
        for i in ifs:
            v = obs.ifaces[i]
            out |= {edge(i[0], v["ckt"]), edge(v["remote"], v["ckt"]), 'node[id="%s"]' % i[0], 'node[id="%s"]' % v["remote"]}
        return out

    dsel, lsel, isel = "selected-demand-output.children", "selected-lsp-output.children", "selected-interface-output.children"
    for k in rng.sample(sorted(obs.demands), min(2, len(obs.demands))):
        via = rng.choice(["interface-demand-callback.value", "find-demands-callback.value", "lsp-demand-callback.value"])
        r = w.fire(dsel, {via: json.dumps({"source": k[0], "dest": k[1], "name": k[2]})}, via) or {}
        sel = r.get(dsel)
        if not c.check(bool(sel), "selecting demand %s shows nothing" % (k,)):
            continue
        v = json.loads(sel)
        ok = isinstance(obs.demands[k]["path"], list)
        c.check((v["source"], v["dest"], v["name"], v["routed"]) == k + (ok,), lambda: "selected demand %s is shown as %s (routed: %s)" % (k, v, ok))
        wi, wl = demand_parts(obs, [k])
        r = w.fire("demand-path-interfaces.options", {dsel: sel}, dsel)
        c.n["demand_selections"] += 1
        if not ok:
            c.n["unrouted_demand_selections"] += 1
            c.check(r is None, lambda: "an unrouted demand shows interfaces %s" % r)
            c.check(styled({dsel: sel}, dsel) == set(), "an unrouted demand highlights something")
            continue
        check_options(c, m, r, "demand-path-interfaces.options", obs)
        check_options(c, m, r, "demand-path-lsps.options", obs)
        gi, gl = ifs_of(options(c, r, "demand-path-interfaces.options")), triples(options(c, r, "demand-path-lsps.options"))
        c.check(gi == sorted(wi) and gl == sorted(wl), lambda: "demand %s shows %s and LSPs %s, expected %s and %s" % (k, gi, gl, sorted(wi), sorted(wl)))
        every, _ = demand_parts(obs, [x for x in obs.demands if x[:2] == k[:2]])
        g = styled({dsel: sel}, dsel)
        c.check(g == selectors(every), lambda: "demand %s highlights %s, expected %s" % (k, sorted(g)[:12], sorted(selectors(every))[:12]))
    for k in rng.sample(sorted(obs.lsps), min(2, len(obs.lsps))):
        via = rng.choice(["demand-path-lsps.value", "find-lsps-callback.value", "interface-lsp-callback.value"])
        r = w.fire(lsel, {via: json.dumps({"source": k[0], "dest": k[1], "name": k[2]})}, via) or {}
        sel = r.get(lsel)
        if not c.check(bool(sel), "selecting LSP %s shows nothing" % (k,)):
            continue
        p = obs.lsps[k]["path"]
        v = json.loads(sel)
        c.check((v["source"], v["dest"], v["name"], v["routed"]) == k + (p is not None,), lambda: "selected LSP %s is shown as %s" % (k, v))
        c.n["lsp_selections"] += 1
        r = w.fire("lsp-interface-callback.options", {lsel: sel}, lsel)
        if p is None:
            c.check(r is None, lambda: "an unrouted LSP shows interfaces %s" % r)
            c.check(styled({lsel: sel}, lsel) == set(), "an unrouted LSP highlights something")
            continue
        check_options(c, m, r, "lsp-interface-callback.options", obs)
        c.check(ifs_of(options(c, r, "lsp-interface-callback.options")) == sorted(p), lambda: "LSP %s shows interfaces %s, its path is %s" % (k, r, p))
        r = w.fire("lsp-demand-callback.options", {lsel: sel}, lsel)
        check_options(c, m, r, "lsp-demand-callback.options", obs)
        on = sorted(d for d, x in obs.demands.items() if isinstance(x["path"], list) and any(("L",) + k in one for one in x["path"]))
        c.check(triples(options(c, r, "lsp-demand-callback.options")) == on, lambda: "demands shown on LSP %s: %s, expected %s" % (k, r, on))
        g = styled({lsel: sel}, lsel)
        c.check(g == selectors(p), lambda: "LSP %s highlights %s, expected %s" % (k, sorted(g)[:12], sorted(selectors(p))[:12]))
    for k in rng.sample(sorted(obs.ifaces), min(2, len(obs.ifaces))):
        v = obs.ifaces[k]
        val = json.dumps({"source": k[0], "interface-name": k[1], "dest": v["remote"], "circuit_id": v["ckt"], "cost": v["cost"]})
        via = rng.choice(["demand-path-interfaces.value", "lsp-interface-callback.value", "interfaces-on-node.value"])
        key, d = w.find(isel)
        r = w.fire(isel, {via: val}, via) or {}
        sel = r.get(isel)
        if not c.check(bool(sel), "selecting interface %s shows nothing" % (k,)):
            continue
        c.n["interface_selections"] += 1
        x = json.loads(sel)
        c.check((x["source"], x["interface-name"], x["dest"], x["circuit_id"], x["cost"], x["utilization %"]) == k + (v["remote"], v["ckt"], v["cost"], v["util"]),
                lambda: "selected interface %s is shown as %s" % (k, sel))
        r = w.fire("interface-demand-callback.options", {isel: sel}, isel)
        check_options(c, m, r, "interface-demand-callback.options", obs)
        on = sorted(d for d in obs.demands if k in demand_parts(obs, [d])[0])
        c.check(triples(options(c, r, "interface-demand-callback.options")) == on, lambda: "demands shown on interface %s: %s, expected %s" % (k, r, on))
        r = w.fire("interface-lsp-callback.options", {isel: sel}, isel)
        check_options(c, m, r, "interface-lsp-callback.options", obs)
        on = sorted(y for y, z in obs.lsps.items() if z["path"] is not None and k in z["path"])
        c.check(triples(options(c, r, "interface-lsp-callback.options")) == on, lambda: "LSPs shown on interface %s: %s, expected %s" % (k, r, on))
        g = styled({isel: sel}, isel)
        c.check(g == {edge(k[0], v["ckt"], "source")}, lambda: "interface %s highlights %s" % (k, g))
    # a click on an edge of the map selects the interface it stands for
    edges = [x["data"] for x in wm.create_elements(rng.random() < 0.5) if "source" in x["data"] and "target" in x["data"]]
    click = "cytoscape-prototypes.selectedEdgeData"
    for d in rng.sample(edges, min(2, len(edges))):
        k = (d["source"], d["interface-name"])
        if not c.check(k in obs.ifaces, lambda: "the map has an edge of no interface: %s" % (d,)):
            continue
        r = w.fire(isel, {click: [d]}, click) or {}
        if not c.check(bool(r.get(isel)), lambda: "clicking the edge of %s shows nothing" % (k,)):
            continue
        c.n["edge_clicks"] += 1
        x, v = json.loads(r[isel]), obs.ifaces[k]
        c.check((x["source"], x["interface-name"], x["dest"], x["cost"]) == k + (v["remote"], v["cost"]) and x["utilization %"] == v["util"],
                lambda: "clicking the edge of %s shows %s, the interface has %s" % (k, x, v))
        g = styled({isel: r[isel]}, isel)
        c.check(g == {edge(k[0], v["ckt"], "source")}, lambda: "clicked interface %s highlights %s" % (k, g))
    # the choice that clears a selection
    for out, via in ((dsel, "find-demands-callback.value"), (lsel, "find-lsps-callback.value"), (isel, "interfaces-on-node.value")):
        r = w.fire(out, {via: ""}, via) or {}
        v = json.loads(r.get(out) or "{}")
        c.check(not v.get("value") and "source" not in v, lambda: "after the clearing choice %s shows %s" % (out, v))
        c.check(styled({out: r.get(out)}, out) == set(), lambda: "something is highlighted after the clearing choice (%s)" % r)
    # the buttons that clear a selection
    for out, button, options_of in ((dsel, "clear-dmd-button.n_clicks", ["demand-path-interfaces.options", "demand-path-lsps.options"]),
                                    (lsel, "clear-lsp-button.n_clicks", ["lsp-interface-callback.options", "lsp-demand-callback.options"]),
                                    (isel, "clear-int-button.n_clicks", ["interface-demand-callback.options", "interface-lsp-callback.options"])):
        r = w.fire(out, {button: 1}, button) or {}
        c.check(styled({out: r.get(out)}, out) == set(), lambda: "something is highlighted after the selection is cleared (%s)" % r)
        for o in options_of:
            q = w.fire(o, {out: r.get(out)}, out) or {}
            c.check(len(q.get(o, [])) <= 1, lambda: "elements are shown after the selection is cleared: %s" % q)
    c.n["web_sessions"] += 1


def run_c21(c):
    from pyNTM.weathermap import WeatherMap
    rng = c.rng
    sp = make(c, rng.choice(["C01", "C02", "C03", "C10", "C11"]))
    if not sp["circuits"]:
        return
    if rng.random() < 0.35:
        # loads at and around the borders of the colour ranges
        for k in sp["circuits"]:
            k["cap"] = rng.choice([100, 1000, 2000])
        for k in rng.sample(sp["circuits"], min(4, len(sp["circuits"]))):
            pct = rng.choice([0, 24, 24.5, 24.99, 25, 49, 49.5, 50, 74.9, 75, 89.999, 90, 99.5, 99.99, 100, 100.5, 250])
            S.add_demand(sp, k["a"], k["b"], k["cap"] * pct / 100.0, "edge%d" % len(sp["demands"]))
    s = Session(c, sp, pick_build(rng, sp))
    s.update()
    for _ in range(rng.choice([0, 0, 2, 4])):
        s.step(s.FAIL + ["cost", "set_demand", "rename"])
    s.update()
    m = s.m
    obs = observe(m)
    wm = c.must("WeatherMap", WeatherMap, m)
    if rng.random() < 0.3:
        wm.spacing_factor = rng.choice([1, 2, 0.5, 12])
    check_elements(c, m, wm, obs)
    check_legend(c, wm, obs)
    check_lists(c, m, wm, obs)
    check_paths(c, m, wm, obs)
    if rng.random() < (0.35 if not c.thorough else 0.6):
        check_web(c, m, wm, obs)
    after = observe(m)
    c.check(after.ifaces == obs.ifaces and after.demands == obs.demands and after.lsps == obs.lsps and after.nodes == obs.nodes, "drawing the map changed the model")
    c.n["maps_checked"] += 1
    c.keys.add(digest([sorted(map(str, obs.ifaces.items())), sorted(obs.demands)]))
