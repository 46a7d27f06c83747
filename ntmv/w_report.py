"""C23: the printed reports and the printed forms of elements."""
import contextlib
import io
from collections import Counter

from . import gen
from .drive import Session
from .observe import observe, ikey, dkey, lkey
from .spec import digest
from .w_routing import make, pick_build


def printed(c, what, f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        c.must(what, f, *a)
    return out.getvalue()


def words(*parts):
    return " ".join(" ".join(str(x) for x in parts).split())


def rows(text):
    return Counter(words(x) for x in text.split("\n") if x.strip())


def dense(*parts):
    return "".join("".join(str(x) for x in parts).split())


def node_form(n):
    return "Node(%r)" % n


def iface_form(k, v):
    return "Interface(name = %r, cost = %s, capacity = %s, node_object = %s, remote_node_object = %s, circuit_id = %r)" % (
        k[1], v["cost"], v["cap"], node_form(k[0]), node_form(v["remote"]), v["ckt"])


def lsp_form(k):
    return "RSVP_LSP(source = %s, dest = %s, lsp_name = %r)" % k


def demand_form(k, d):
    return "Demand(source = %s, dest = %s, traffic = %s, name = %r)" % (k[0], k[1], d["t"], k[2])


def same(c, what, got, want):
    extra, miss = list((got - want).elements()), list((want - got).elements())
    c.n["rows_compared"] += sum(want.values())
    c.check(not extra and not miss, lambda: "%s prints %s, expected %s (%d and %d rows)" % (
        what, extra[:2], miss[:2], sum(got.values()), sum(want.values())))


def check_tables(c, m, o):
    t = printed(c, "display_interface_status", m.display_interface_status)
    want = Counter([words("Node", "Interface", "Remote Node", "Failed")])
    want.update(words(k[0], k[1], v["remote"], v["failed"]) for k, v in o.ifaces.items())
    same(c, "display_interface_status", rows(t), want)
    t = printed(c, "display_node_status", m.display_node_status)
    want = Counter([words("Node", "Failed")])
    want.update(words(k, v["failed"]) for k, v in o.nodes.items())
    same(c, "display_node_status", rows(t), want)
    t = printed(c, "display_interfaces_traffic", m.display_interfaces_traffic)
    want = Counter([words("Node", "Interface", "Remote Node", "Traffic")])
    want.update(words(k[0], k[1], v["remote"], repr(v["traffic"])) for k, v in o.ifaces.items())
    same(c, "display_interfaces_traffic", rows(t), want)
    t = printed(c, "display_interface_objects", m.display_interface_objects)
    same(c, "display_interface_objects", rows(t), Counter(words(iface_form(k, v)) for k, v in o.ifaces.items()))


def check_demand_paths(c, m, o):
    t = printed(c, "display_demand_paths", m.display_demand_paths)
    got = Counter(dense(x) for x in ("\n" + t).split("\ndemand._key is ")[1:])
    want = Counter()

    def form(x):
        return iface_form(x[1:], o.ifaces[x[1:]]) if x[0] == "I" else lsp_form(x[1:])
    for d in m.demand_objects:
        k = dkey(d)
        p = o.demands[k]["path"]
        p = p if isinstance(p, list) else []
        c.n["paths_printed"] += len(p)
        c.n["unrouted_printed" if not p else "routed_printed"] += 1
        want[dense(k, "Demand has %d paths:" % len(p), *["[%s]" % ",".join(form(x) for x in one) for one in p])] += 1
    same(c, "display_demand_paths", got, want)


def check_forms(c, m, o):
    for i in m.interface_objects:
        c.check(repr(i) == iface_form(ikey(i), o.ifaces[ikey(i)]), lambda: "interface %s prints as %r" % (ikey(i), repr(i)))
    for n in m.node_objects:
        c.check(repr(n) == node_form(n.name), lambda: "node %s prints as %r" % (n.name, repr(n)))
    for d in m.demand_objects:
        c.check(repr(d) == demand_form(dkey(d), o.demands[dkey(d)]), lambda: "demand %s prints as %r" % (dkey(d), repr(d)))
    for x in m.rsvp_lsp_objects:
        c.check(repr(x) == lsp_form(lkey(x)), lambda: "LSP %s prints as %r" % (lkey(x), repr(x)))
    for x in m.circuit_objects:
        a, b = x.interface_a, x.interface_b
        want = "Circuit(%s, %s)" % (iface_form(ikey(a), o.ifaces[ikey(a)]), iface_form(ikey(b), o.ifaces[ikey(b)]))
        c.check(repr(x) == want, lambda: "circuit prints as %r, expected %r" % (repr(x), want))
    for x in m.srlg_objects:
        c.check(repr(x) == "SRLG(Name: %s)" % x.name, lambda: "SRLG %s prints as %r" % (x.name, repr(x)))
        c.n["srlgs_printed"] += 1
    want = "(Interfaces: %d, Nodes: %d, Demands: %d, RSVP_LSPs: %d)" % (len(o.ifaces), len(o.nodes), len(o.demands), len(o.lsps))
    r = repr(m)
    c.check(r.endswith("Model" + want), lambda: "model prints as %r, expected ...Model%s" % (r, want))
    c.n["forms_compared"] += len(o.ifaces) + len(o.nodes) + len(o.demands) + len(o.lsps)


def state(m):
    o = observe(m)
    return digest([sorted((str(k), str(v)) for k, v in x.items()) for x in (o.nodes, o.ifaces, o.demands, o.lsps)])


def look(c, m):
    """Everything printed now."""
    o = observe(m)
    before = state(m)
    check_tables(c, m, o)
    check_demand_paths(c, m, o)
    check_forms(c, m, o)
    c.check(state(m) == before, "printing reports changed the model")
    c.n["reports"] += 1
    if any(v["failed"] for v in o.ifaces.values()):
        c.n["reports_with_failures"] += 1
    c.keys.add(before)


def run_c23(c):
    sp = make(c, c.rng.choice(["C01", "C10", "C11", "C12", "C06", "C13"]))
    if c.rng.random() < 0.15:
        c.n["extreme_values"] += gen.extremes(c.rng, sp)
    s = Session(c, sp, pick_build(c.rng, sp))
    s.update()
    look(c, s.m)
    menu = s.FAIL * 2 + s.CONF + s.SRLG
    for _ in range(c.rng.choice([0, 2, 4])):
        did = s.step(menu)
        if c.rng.random() < 0.7:
            s.update()
            did = True
        if did and c.rng.random() < 0.4:
            look(c, s.m)
        if c.v:
            return
    s.update()
    look(c, s.m)
