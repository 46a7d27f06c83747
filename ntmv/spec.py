"""Neutral network descriptions (JSON-able) and the ways of turning one into a model."""
import copy
import hashlib
import json
import os
import tempfile

from . import env


def new_spec(kind):
    return {"kind": kind, "nodes": [], "circuits": [], "demands": [], "lsps": []}


def add_node(spec, name, lat=0, lon=0, shortcuts=False, failed=False):
    spec["nodes"].append(
        {"name": name, "lat": lat, "lon": lon, "shortcuts": shortcuts, "failed": failed}
    )


def add_circuit(spec, cid, a, b, an=None, bn=None, ac=10, bc=None, cap=1000, arsvp=True,
                brsvp=True, apct=100, bpct=100, failed=False):
    if bc is None:
        bc = ac
    n = len(spec["circuits"])
    spec["circuits"].append(
        {"id": cid, "a": a, "b": b, "an": an or "i%d_%s" % (n, b), "bn": bn or "i%d_%s" % (n, a),
         "ac": ac, "bc": bc, "cap": cap, "arsvp": arsvp, "brsvp": brsvp, "apct": apct,
         "bpct": bpct, "failed": failed}
    )
    return spec["circuits"][-1]


def add_demand(spec, s, d, traffic, name):
    spec["demands"].append({"s": s, "d": d, "t": traffic, "n": name})


def add_lsp(spec, s, d, name, bw=None, metric=None):
    spec["lsps"].append({"s": s, "d": d, "n": name, "bw": bw, "m": metric})


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def _okey(o):
    k = o._key
    return repr(k() if callable(k) else k)


class SchedSet(set):
    """A set whose iteration order is chosen by the workload (seeded), so that the order in which
    the code under test meets demands, LSPs, interfaces and nodes is controlled and replayable."""

    order_seed = 0

    def __iter__(self):
        items = list(set.__iter__(self))
        if self.order_seed:
            items.sort(
                key=lambda o: hashlib.md5(("%s|%s" % (self.order_seed, _okey(o))).encode()).digest()
            )
        return iter(items)


def sched(items, seed):
    s = SchedSet(items)
    s.order_seed = seed
    return s


def model_class(kind):
    return {
        "flex": env.FlexModel,
        "perf": env.PerformanceModel,
        "plm": env.Parallel_Link_Model,
        "model": env.Model,
    }[kind]


def is_flex(kind):
    return kind in ("flex", "plm")


def circuit_ifaces(c, nodes, with_id):
    cid = c["id"] if with_id else None
    r = []
    for a, b in (("a", "b"), ("b", "a")):
        kw = {"circuit_id": cid, "rsvp_enabled": c[a + "rsvp"], "percent_reservable_bandwidth": c[a + "pct"]}
        if len(c["an"]) % 2:
            # what is the default may be left out
            kw = {k: v for k, v in kw.items() if not (v is None or v is True or k[0] == "p" and v == 100)}
        r.append(env.Interface(c[a + "n"], c[a + "c"], c["cap"], nodes[c[a]], nodes[c[b]], **kw))
    return r[0], r[1]


def given(**kw):
    """Arguments without those that have their default value."""
    return {k: v for k, (v, dflt) in kw.items() if not (type(v) is type(dflt) and v == dflt)}


def build(spec, order_seed=0, kind=None, set_type=None, half=None):
    """Constructor-built model: everything handed over at once. With half (a random source) failures
    are marked on one end of a circuit, or on the node, alone."""
    kind = kind or spec["kind"]
    nodes = {}
    for n in spec["nodes"]:
        o = env.Node(n["name"], **given(lat=(n["lat"], 0), lon=(n["lon"], 0)))
        if n["shortcuts"] or len(n["name"]) % 2:
            o.igp_shortcuts_enabled = n["shortcuts"]
        nodes[n["name"]] = o
    ifs = []
    for c in spec["circuits"]:
        ifs.append((circuit_ifaces(c, nodes, is_flex(kind)), c))
    for n in spec["nodes"]:
        if n["failed"]:
            nodes[n["name"]].failed = True
    flat = []
    for (ia, ib), c in ifs:
        if c["failed"] or nodes[c["a"]].failed or nodes[c["b"]].failed:
            if half is None:
                ia.failed = True
                ib.failed = True
            elif c["failed"]:
                half.choice([ia, ib]).failed = True
        flat += [ia, ib]
    dem = [env.Demand(nodes[d["s"]], nodes[d["d"]], **given(traffic=(d["t"], 0), name=(d["n"], "none"))) for d in spec["demands"]]
    lsps = [
        env.RSVP_LSP(nodes[x["s"]], nodes[x["d"]], **given(lsp_name=(x["n"], "none"), configured_setup_bandwidth=(x["bw"], None),
                                                           configured_manual_metric=(x["m"], None)))
        for x in spec["lsps"]
    ]
    if set_type is set:
        def mk(items, i):
            return set(items)
    else:
        def mk(items, i):
            return sched(items, order_seed and order_seed * 8 + i)
    return model_class(kind)(mk(flat, 1), mk(nodes.values(), 2), mk(dem, 3), mk(lsps, 4))


def num(x):
    return ("%r" % x) if isinstance(x, float) and x != int(x) else str(int(x))


def to_file(spec, path, kind=None, rng=None, bom=False, columns="auto"):
    """Write the spec as a model file. rng (optional) shuffles lines inside each table."""
    kind = kind or spec["kind"]
    flex = is_flex(kind)
    rows = []
    for c in spec["circuits"]:
        for side, other in (("a", "b"), ("b", "a")):
            r = [c[side], c[other], c[side + "n"], str(c[side + "c"]), str(c["cap"])]
            if flex:
                r.append(str(c["id"]))
            rsvp, pct = c[side + "rsvp"], c[side + "pct"]
            if pct != 100:
                r += [str(rsvp), num(pct)]
            elif not rsvp:
                r += [str(rsvp)]
            rows.append("\t".join(r))
    nrows = []
    ends = {c[k] for c in spec["circuits"] for k in "ab"}
    for n in spec["nodes"]:
        r = [n["name"], str(n["lon"]), str(n["lat"])]
        if n["shortcuts"]:
            r.append("True")
        elif not n["lat"] and not n["lon"] and rng is not None and rng.random() < 0.5:
            if n["name"] in ends and rng.random() < 0.5:
                continue
            r = r[:1]
        nrows.append("\t".join(r))
    drows = ["\t".join([d["s"], d["d"], str(d["t"]), d["n"]]) for d in spec["demands"]]
    lrows = []
    for x in spec["lsps"]:
        r = [x["s"], x["d"], x["n"]]
        if x["bw"] is not None or x["m"] is not None:
            r.append("" if x["bw"] is None else num(x["bw"]))
        if x["m"] is not None:
            r.append(str(x["m"]))
        lrows.append("\t".join(r))
    if rng is not None:
        for t in (rows, nrows, drows, lrows):
            rng.shuffle(t)
    hdr = "node_object_name\tremote_node_object_name\tname\tcost\tcapacity"
    if flex:
        hdr += "\tcircuit_id"
    hdr += "\trsvp_enabled\tpercent_reservable_bandwidth"
    out = ["INTERFACES_TABLE", hdr] + rows + [""]
    out += ["NODES_TABLE", "name\tlon\tlat\tigp_shortcuts_enabled"] + nrows + [""]
    out += ["DEMANDS_TABLE", "source\tdest\ttraffic\tname"] + drows
    if lrows:
        out += ["", "RSVP_LSP_TABLE", "source\tdest\tname\tconfigured_setup_bw\tmanual_metric"] + lrows
    text = "\n".join(out) + "\n"
    with open(path, "w", encoding="utf-8-sig" if bom else "utf-8") as f:
        f.write(text)
    return text


def load_via_file(spec, kind=None, **kw):
    kind = kind or spec["kind"]
    fd, path = tempfile.mkstemp(suffix=".tsv", prefix="ntmv")
    os.close(fd)
    try:
        to_file(spec, path, kind, **kw)
        return model_class(kind).load_model_file(path)
    finally:
        os.unlink(path)


def clone(spec):
    return copy.deepcopy(spec)
