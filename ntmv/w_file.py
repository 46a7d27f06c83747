"""C17: model files load into exactly what they say."""
import os
import tempfile

from . import gen
from . import spec as S
from .observe import observe, inputs
from .oracle import deterministic
from .spec import digest
from .w_history import diff, diff_results
from .w_routing import make


def circuit_rows(c, sp, rng, loose):
    """Lines of the interface table; sp is adjusted to what the lines say."""
    flex = S.is_flex(sp["kind"])
    rows = []
    for k in sp["circuits"]:
        for side, other in (("a", "b"), ("b", "a")):
            r = [k[side], k[other], k[side + "n"], str(k[side + "c"]), str(k["cap"])]
            if flex:
                r.append(str(k["id"]))
            on, pct = k[side + "rsvp"], k[side + "pct"]
            word = rng.choice(["True", "T", "true"]) if on else rng.choice(["False", "F", "false", "no"])
            if not loose:
                r += [str(on), S.num(pct)]
            elif pct == 100:
                w = rng.randint(0, 3)
                if w == 0 and on:
                    c.n["optional_columns_absent"] += 1
                elif w == 1:
                    r.append("" if on and rng.random() < 0.5 else word)
                    c.n["optional_columns_blank"] += r[-1] == ""
                elif w == 2:
                    r += ["" if on and rng.random() < 0.5 else word, ""]
                    c.n["optional_columns_blank"] += 1
                else:
                    r += [word, rng.choice(["100", "100.0"])]
            else:
                r += ["" if on and rng.random() < 0.4 else word, S.num(pct)]
            rows.append("\t".join(r))
    return rows


def node_rows(c, sp, rng, loose):
    rows = []
    implied = {k[x] for k in sp["circuits"] for x in "ab"}
    for n in sp["nodes"]:
        if loose and n["name"] in implied and rng.random() < 0.3:
            n["lat"] = n["lon"] = 0
            n["shortcuts"] = False
            c.n["nodes_implied"] += 1
            continue
        r = [n["name"], str(n["lon"]), str(n["lat"])]
        if n["shortcuts"]:
            r.append("True")
        elif rng.random() < 0.4:
            r.append(rng.choice(["False", "False", ""]))
        elif loose and rng.random() < 0.35:
            w = rng.randint(0, 3)
            if w == 0:
                r, n["lon"], n["lat"] = [n["name"]], 0, 0
            elif w == 1:
                r, n["lat"] = r[:2], 0
            elif w == 2:
                r[1], n["lon"] = "", 0
            else:
                r[2], n["lat"] = "", 0
            c.n["optional_columns_blank"] += 1
        rows.append("\t".join(r))
    return rows


def demand_rows(sp, rng, loose):
    rows = []
    used = {(d["s"], d["d"], d["n"]) for d in sp["demands"]}
    for d in sp["demands"]:
        nm = d["n"]
        if nm == "none" and rng.random() < 0.6:
            nm = ""
        elif loose and rng.random() < 0.1 and (d["s"], d["d"], "none") not in used:
            used.add((d["s"], d["d"], "none"))
            d["n"], nm = "none", ""
        rows.append("\t".join([d["s"], d["d"], str(d["t"]), nm]))
    return rows


def lsp_rows(sp, rng, loose):
    rows = []
    for x in sp["lsps"]:
        r = [x["s"], x["d"], x["n"]]
        bw = "" if x["bw"] is None else S.num(x["bw"])
        m = "" if x["m"] is None else str(x["m"])
        if m or (loose and rng.random() < 0.2):
            r += [bw, m]
        elif bw or (loose and rng.random() < 0.2):
            r += [bw]
        rows.append("\t".join(r))
    return rows


class Doc(object):
    def __init__(self, c, sp, loose=True):
        rng = c.rng
        self.flex = S.is_flex(sp["kind"])
        self.ifs = circuit_rows(c, sp, rng, loose)
        self.nodes = node_rows(c, sp, rng, loose)
        self.demands = demand_rows(sp, rng, loose)
        self.lsps = lsp_rows(sp, rng, loose)
        self.lsp_table = bool(self.lsps) or rng.random() < 0.4
        self.bom = rng.random() < 0.25
        self.eol = rng.choice(["\n", "\n", "\r\n"])
        self.gap = rng.choice([1, 1, 2, 3])
        self.tail = rng.choice([0, 1, 1, 2])
        self.path = rng.choice(["", "", "", "-x%d" % rng.randrange(10**9)])

    def shuffle(self, rng):
        for t in (self.ifs, self.nodes, self.demands, self.lsps):
            rng.shuffle(t)

    def text(self):
        hdr = "node_object_name\tremote_node_object_name\tname\tcost\tcapacity" + ("\tcircuit_id" if self.flex else "") + "\trsvp_enabled\tpercent_reservable_bandwidth"
        gap = [""] * self.gap
        out = ["INTERFACES_TABLE", hdr] + self.ifs + gap + ["NODES_TABLE", "name\tlon\tlat\tigp_shortcuts_enabled"] + self.nodes + gap
        out += ["DEMANDS_TABLE", "source\tdest\ttraffic\tname"] + self.demands
        if self.lsp_table:
            out += gap + ["RSVP_LSP_TABLE", "source\tdest\tname\tconfigured_setup_bw\tmanual_metric"] + self.lsps
        return self.eol.join(out) + self.eol * self.tail

    def load(self, cls):
        # often the name of a file this process loaded before, with other contents then
        path = os.path.join(tempfile.gettempdir(), "ntmv%d%s.csv" % (os.getpid(), self.path))
        try:
            with open(path, "wb") as f:
                f.write(self.text().encode("utf-8-sig" if self.bom else "utf-8"))
            return cls.load_model_file(path)
        finally:
            os.unlink(path)


def expected(sp):
    flex = S.is_flex(sp["kind"])
    ifs = {}
    for k in sp["circuits"]:
        for a, b in (("a", "b"), ("b", "a")):
            ifs[(k[a], k[a + "n"])] = (k[b], k[a + "c"], k["cap"], str(k["id"]) if flex else None, False, k[a + "rsvp"], float(k[a + "pct"]))
    return {
        "nodes": {n["name"]: (n["lat"], n["lon"], n["shortcuts"], False) for n in sp["nodes"]},
        "ifaces": ifs,
        "lsps": {(x["s"], x["d"], x["n"]): (x["bw"], "not set" if x["m"] is None else x["m"]) for x in sp["lsps"]},
        "demands": {(d["s"], d["d"], d["n"]): d["t"] for d in sp["demands"]},
    }


def loaded(m):
    o = observe(m)
    r = inputs(o)
    if not o.flex:
        r["ifaces"] = {k: v[:3] + (None,) + v[4:] for k, v in r["ifaces"].items()}
    return o, r


def check_loaded(c, sp, m, what):
    o, r = loaded(m)
    for d in diff(expected(sp), r, 3):
        c.bad("%s: file says / model has: %s" % (what, d))
    for nm, got, want in (
        ("interfaces", len(m.interface_objects), 2 * len(sp["circuits"])), ("nodes", len(m.node_objects), len(sp["nodes"])),
        ("demands", len(m.demand_objects), len(sp["demands"])), ("LSPs", len(m.rsvp_lsp_objects), len(sp["lsps"])), ("SRLGs", len(m.srlg_objects), 0)):
        c.check(got == want, "%s: %d %s in the model, %d in the file" % (what, got, nm, want))
    nodes = {n.name: n for n in m.node_objects}
    own = [(i.node_object, i) for i in m.interface_objects] + [(i.remote_node_object, i) for i in m.interface_objects]
    own += [(y, x) for x in list(m.demand_objects) + list(m.rsvp_lsp_objects) for y in (x.source_node_object, x.dest_node_object)]
    for n, x in own:
        if nodes.get(n.name) is not n:
            c.bad("%s: %s refers to a node object that is not the model's %s" % (what, x, n.name))
            break
    c.n["loads_compared"] += 1
    c.n["elements_compared"] += len(own)


def file_spec(c):
    rng = c.rng
    while True:
        sp = make(c, rng.choice(["C01", "C02", "C10", "C11", "C12"])) if rng.random() < 0.5 else None
        if sp is None:
            kind = rng.choice(["flex", "plm", "perf", "model"])
            sp = gen.topology(rng, kind, costmode=rng.choice(["wide", "small"]))
            gen.demands(rng, sp, count=rng.randint(0, 6))
            if rng.random() < 0.6:
                gen.lsps(rng, sp)
            if S.is_flex(kind) and rng.random() < 0.5:
                gen.shortcuts(rng, sp)
        if rng.random() < 0.03:
            sp["circuits"] = []
        break
    for d in sp["demands"]:
        d["t"] = int(d["t"])
    for n in sp["nodes"]:
        n["lat"], n["lon"], n["failed"] = int(n["lat"]), int(n["lon"]), False
    for k in sp["circuits"]:
        # capacities are whole numbers in a file, and circuit ids are texts
        k["failed"], k["cap"] = False, int(k["cap"])
    if len({str(k["id"]) for k in sp["circuits"]}) < len(sp["circuits"]):
        for i, k in enumerate(sp["circuits"]):
            k["id"] = i + 1
    if rng.random() < 0.12:
        c.n["extreme_values"] += gen.extremes(rng, sp, whole=True)
    return sp


def refuse(c, what, doc, cls, late=False):
    """The load (or, where said, the first update) must end in a model error."""
    c.n["refused_files"] += 1
    c.n["refused_" + what.split()[0]] += 1

    def go():
        m = doc.load(cls)
        if late:
            m.update_simulation()
        return m
    c.must_raise("loading a file with %s" % what, go)


def run_c17(c):
    rng = c.rng
    sp = file_spec(c)
    cls = S.model_class(sp["kind"])
    flex = S.is_flex(sp["kind"])
    doc = Doc(c, sp)
    if rng.random() < 0.8:
        doc.shuffle(rng)
    if rng.random() < 0.3:
        sp0 = file_spec(c)
        doc0 = Doc(c, sp0)
        doc0.path = doc.path
        c.note("file loaded before under the same name", sp0["kind"], doc0.text())
        check_loaded(c, sp0, c.must("load_model_file", doc0.load, S.model_class(sp0["kind"])), "file loaded before")
        c.n["names_reused"] += 1
    c.note("file", sp["kind"], doc.bom, repr(doc.eol), doc.text())
    m = c.must("load_model_file", doc.load, cls)
    c.check(type(m) is cls, lambda: "load_model_file of %s returned a %s" % (cls.__name__, type(m).__name__))
    check_loaded(c, sp, m, "loaded model")
    if c.v:
        return
    c.must("update_simulation of a loaded model", m.update_simulation)
    check_loaded(c, sp, m, "loaded model after an update")
    o = observe(m)
    want = sorted(tuple(sorted(((k["a"], k["an"]), (k["b"], k["bn"])))) for k in sp["circuits"])
    c.check(sorted(o.circuits) == want, lambda: "loaded circuits %s, the file has %s" % (sorted(o.circuits)[:5], want[:5]))
    det = deterministic(o)
    if det:
        f = c.must("built by hand", S.build, sp, c.order())
        c.must("update_simulation", f.update_simulation)
        c.n["results_compared"] += 1
        for d in diff_results(o, observe(f)):
            c.bad("loaded / hand-built results differ: %s" % d)
        if rng.random() < 0.4:
            doc.shuffle(rng)
            doc.bom = not doc.bom
            doc.eol = "\n" if doc.eol == "\r\n" else "\r\n"
            g = c.must("load_model_file of reordered lines", doc.load, cls)
            check_loaded(c, sp, g, "reordered file")
            c.must("update_simulation", g.update_simulation)
            for d in diff_results(o, observe(g)):
                c.bad("results differ after reordering lines: %s" % d)
            c.n["reorderings_compared"] += 1
    if rng.random() < 0.2 and sp["circuits"]:
        # what happens to a loaded model does not touch what the next load gives
        k = rng.choice(sp["circuits"])
        i = c.must("get_interface_object", m.get_interface_object, k["an"], k["a"])
        i.cost = k["ac"] + 3
        m.get_node_object(k["a"]).lat = 77
        c.must("fail_interface", m.fail_interface, k["bn"], k["b"])
        c.must("add_node", m.add_node, type(m.get_node_object(k["a"]))("a new one"))
        check_loaded(c, sp, c.must("load_model_file again", doc.load, cls), "file loaded again after changes to the first model")
        c.n["reloads_compared"] += 1
    # repeated lines
    rep = False
    if doc.demands and rng.random() < 0.4:
        r = rng.choice(doc.demands).split("\t")
        r[2] = rng.choice([r[2], str(int(r[2]) + 5)])
        doc.demands.append("\t".join(r))
        rep = True
    if doc.lsps and rng.random() < 0.4:
        r = rng.choice(doc.lsps).split("\t")[:3] + rng.choice([[], ["7"], ["", "3"]])
        doc.lsps.append("\t".join(r))
        rep = True
    if doc.nodes and rng.random() < 0.4:
        doc.nodes.insert(rng.randint(0, len(doc.nodes)), rng.choice(doc.nodes))
        rep = True
    if not flex and doc.ifs and rng.random() < 0.5:
        r = rng.choice(doc.ifs).split("\t")
        if rng.random() < 0.5:
            r[3] = str(int(r[3]) + 1)
        doc.ifs.append("\t".join(r))
        rep = True
    if rep:
        c.note("repeated lines", doc.text())
        g = c.must("load_model_file with repeated lines", doc.load, cls)
        check_loaded(c, sp, g, "file with repeated lines")
        c.n["repeats_compared"] += 1
    # refused files
    defects = ["demand_source", "demand_dest", "columns", "columns"]
    if sp["circuits"]:
        defects += ["counterpart", "capacity"]
    if doc.lsps:
        defects += ["lsp_source", "lsp_dest"]
    if flex:
        defects += ["circuit_id_once", "circuit_id_thrice", "circuit_id_four"]
    if not sp["circuits"]:
        defects = ["demand_source", "demand_dest", "columns"]
    d = rng.choice(defects)
    bad = Doc(c, S.clone(sp), loose=False)
    names = [n["name"] for n in sp["nodes"]]
    ghost = rng.choice(["nowhere", names[0] + "x", names[0].lower() + "_", " " + names[0]])
    if ghost in names:
        ghost = "nowhere"
    known = rng.choice(names)
    if d == "demand_source":
        bad.demands.insert(rng.randint(0, len(bad.demands)), "%s\t%s\t5\tghost" % (ghost, known))
    elif d == "demand_dest":
        bad.demands.insert(rng.randint(0, len(bad.demands)), "%s\t%s\t5\tghost" % (known, ghost))
    elif d == "lsp_source":
        bad.lsps.insert(rng.randint(0, len(bad.lsps)), "%s\t%s\tghost" % (ghost, known))
    elif d == "lsp_dest":
        bad.lsps.insert(rng.randint(0, len(bad.lsps)), "%s\t%s\tghost\t10\t4" % (known, ghost))
    elif d == "columns":
        i = rng.randint(0, len(bad.ifs))
        n = rng.randint(1, 5 if flex else 4)
        bad.ifs.insert(i, "\t".join([known, ghost, "gi", "5", "100"][:n]))
    elif d == "counterpart":
        i = rng.randrange(len(bad.ifs))
        r = bad.ifs[i].split("\t")
        r[1] = ghost
        bad.ifs[i] = "\t".join(r)
    elif d == "capacity":
        i = rng.randrange(len(bad.ifs))
        r = bad.ifs[i].split("\t")
        r[4] = str(int(r[4]) + rng.choice([1, 50]))
        bad.ifs[i] = "\t".join(r)
    elif d == "circuit_id_once":
        del bad.ifs[rng.randrange(len(bad.ifs))]
    elif d == "circuit_id_thrice":
        r = rng.choice(bad.ifs).split("\t")
        r[2] += "_third"
        bad.ifs.insert(rng.randint(0, len(bad.ifs)), "\t".join(r))
    elif d == "circuit_id_four":
        k = rng.choice(sp["circuits"])
        for a, b in ((k["a"], k["b"]), (k["b"], k["a"])):
            bad.ifs.insert(rng.randint(0, len(bad.ifs)), "\t".join([a, b, "another", "4", str(k["cap"]), str(k["id"])]))
    c.note("refuse", d, bad.text())
    refuse(c, d, bad, cls, late=d in ("counterpart", "capacity"))
    c.keys.add(digest([doc.text(), d]))
