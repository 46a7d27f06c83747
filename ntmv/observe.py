"""Reads a model's observable state through its public attributes into plain data."""
from collections import Counter

from . import env


def ikey(i):
    return (i.node_object.name, i.name)


def lkey(x):
    return (x.source_node_object.name, x.dest_node_object.name, x.lsp_name)


def dkey(d):
    return (d.source_node_object.name, d.dest_node_object.name, d.name)


def item(o):
    if isinstance(o, env.Interface):
        return ("I",) + ikey(o)
    if isinstance(o, env.RSVP_LSP):
        return ("L",) + lkey(o)
    return ("?", repr(o))


class Obs(object):
    pass


def observe(model):
    o = Obs()
    o.flex = isinstance(model, env.FlexModel)
    o.nodes = {}
    for n in model.node_objects:
        o.nodes[n.name] = {
            "failed": n.failed, "lat": n.lat, "lon": n.lon, "shortcuts": n.igp_shortcuts_enabled,
        }
    o.ifaces = {}
    o.dup_ifaces = 0
    for i in model.interface_objects:
        if ikey(i) in o.ifaces:
            o.dup_ifaces += 1
        o.ifaces[ikey(i)] = {
            "remote": i.remote_node_object.name, "cost": i.cost, "cap": i.capacity, "ckt": i.circuit_id,
            "failed": i.failed, "rsvp": i.rsvp_enabled, "pct": i.percent_reservable_bandwidth,
            "traffic": i.traffic, "util": i.utilization, "reserved": i.reserved_bandwidth,
            "reservable": i.reservable_bandwidth,
        }
    o.lsps = {}
    for x in model.rsvp_lsp_objects:
        p = x.path
        routed = isinstance(p, dict)
        o.lsps[lkey(x)] = {
            "path": [ikey(i) for i in p["interfaces"]] if routed else None,
            "cost": p.get("path_cost") if routed else None,
            "headroom": p.get("baseline_path_reservable_bw") if routed else None,
            "raw": None if routed else p,
            "reserved": x.reserved_bandwidth, "setup": x.setup_bandwidth,
            "conf": x.configured_setup_bandwidth, "manual": x.manual_metric,
        }
    o.demands = {}
    for d in model.demand_objects:
        p = d.path
        if isinstance(p, list):
            path = [tuple(item(y) for y in one) for one in p]
        else:
            path = p
        det = d.path_detail
        if isinstance(det, dict):
            detail = {}
            for k, v in det.items():
                its = v.get("items", v.get("interfaces")) if isinstance(v, dict) else None
                detail[k] = {
                    "items": None if its is None else tuple(item(y) for y in its),
                    "traffic": v.get("path_traffic") if isinstance(v, dict) else None,
                    "splits": {item(y): s for y, s in v["splits"].items()} if isinstance(v, dict) and "splits" in v else None,
                }
        else:
            detail = det
        o.demands[dkey(d)] = {"t": d.traffic, "path": path, "detail": detail}
    o.circuits = [tuple(sorted((ikey(c.interface_a), ikey(c.interface_b)))) for c in model.circuit_objects]
    return o


def results(o, ndigits=6):
    """The simulation results as comparable plain data."""
    def r(x):
        return round(x, ndigits) if isinstance(x, (int, float)) and not isinstance(x, bool) else x

    return {
        "ifaces": {k: (r(v["traffic"]), r(v["reserved"]), v["failed"]) for k, v in o.ifaces.items()},
        "lsps": {k: (v["path"], r(v["reserved"]), r(v["setup"])) for k, v in o.lsps.items()},
        "demands": {
            k: (sorted(v["path"]) if isinstance(v["path"], list) else v["path"]) for k, v in o.demands.items()
        },
        "nodes": {k: v["failed"] for k, v in o.nodes.items()},
    }


def slack(o):
    """Most that display rounding may move each interface's traffic, from the demands that cross it. A
    performance model rounds each demand's load on an interface to one decimal, a flexible one each
    demand's load on a shortcut LSP; the rest is exact."""
    n = Counter()
    for d in o.demands.values():
        if not isinstance(d["path"], list):
            continue
        hit = Counter()
        for p in d["path"]:
            for x in p:
                if x[0] == "I":
                    if not o.flex:
                        hit[x[1:]] += 1
                elif x[0] == "L":
                    for i in o.lsps[x[1:]]["path"] or ():
                        hit[i] += 1
        for i, k in hit.items():
            n[i] += 0.0501 * (k if o.flex else 1) + 6e-5 * k
    return n


def inputs(o):
    """The configuration (not results) as comparable plain data."""
    return {
        "nodes": {k: (v["lat"], v["lon"], v["shortcuts"], v["failed"]) for k, v in o.nodes.items()},
        "ifaces": {
            k: (v["remote"], v["cost"], v["cap"], v["ckt"], v["failed"], v["rsvp"], v["pct"])
            for k, v in o.ifaces.items()
        },
        "lsps": {k: (v["conf"], v["manual"]) for k, v in o.lsps.items()},
        "demands": {k: v["t"] for k, v in o.demands.items()},
    }
