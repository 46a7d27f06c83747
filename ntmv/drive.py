"""Sessions: client programs over one model, with a shadow of what the configuration and failure
state must be. The shadow implements the documented meaning of each operation and never looks at
the code under test."""
from . import env, gen
from . import spec as S
from .observe import observe, ikey


class Session(object):
    def __init__(self, case, spec, how="ctor", order_seed=None, slow_checks=True):
        self.c = case
        self.kind = spec["kind"]
        self.flex = S.is_flex(self.kind)
        self.sp = S.clone(spec)
        self.srlgs = {}
        self.order_seed = case.order() if order_seed is None else order_seed
        self.counter = 0
        self.given = set()  # every name handed out
        self.ops = 0
        self.m = self._make(how)
        self.how = how

    # -- construction --
    def _make(self, how):
        c, sp = self.c, self.sp
        c.note("build", how, self.order_seed, S.clone(sp))
        if how == "ctor":
            half = c.rng if c.prop == "C03" and c.rng.random() < 0.2 else None
            m = c.must("constructor", S.build, sp, self.order_seed, half=half)
            c.n["built_with_one_end_failed"] += half is not None
        elif how in ("raw", "rawfile"):
            # neither validated nor simulated yet
            if how == "raw":
                return c.must("constructor", S.build, sp, self.order_seed)
            if self.flex:
                for x in sp["circuits"]:
                    x["id"] = str(x["id"])
            return c.must("load_model_file", S.load_via_file, S.clone(sp), rng=c.rng)
        elif how == "file":
            base = S.clone(sp)
            for x in base["nodes"]:
                x["failed"] = False
            for x in base["circuits"]:
                x["failed"] = False
            m = c.must("load_model_file", S.load_via_file, base, rng=c.rng)
            if self.flex:
                for x in sp["circuits"]:
                    x["id"] = str(x["id"])
            self.update(m)
            for x in sp["circuits"]:
                if x["failed"]:
                    c.must("fail_interface", m.fail_interface, x["an"], x["a"])
            for x in sp["nodes"]:
                if x["failed"]:
                    c.must("fail_node", m.fail_node, x["name"])
                    self._down_at(x["name"])
        else:
            m = self._grow()
        for x in sp["nodes"]:
            if x["failed"]:
                self._down_at(x["name"])
        if not self.flex and how == "ctor":
            # a performance model numbers its circuits when it is first validated
            c.must("validate_model", m.validate_model)
        if how == "ctor" and half is not None:
            self.update(m)
        return m

    def _grow(self):
        c, sp, rng = self.c, self.sp, self.c.rng
        m = c.must("empty model", S.model_class(self.kind))
        todo = [("n", x) for x in sp["nodes"]] + [("c", x) for x in sp["circuits"]]
        todo += [("d", x) for x in sp["demands"]] + [("l", x) for x in sp["lsps"]]
        rng.shuffle(todo)
        have, queue = set(), todo
        while queue:
            nxt = []
            for t, x in queue:
                if t == "n":
                    o = env.Node(x["name"], x["lat"], x["lon"])
                    o.igp_shortcuts_enabled = x["shortcuts"]
                    c.must("add_node", m.add_node, o)
                    have.add(x["name"])
                    continue
                ends = (x["a"], x["b"]) if t == "c" else (x["s"], x["d"])
                if not (ends[0] in have and ends[1] in have):
                    nxt.append((t, x))
                    continue
                if t == "c":
                    self._add_circuit(m, x)
                elif t == "d":
                    c.must("add_demand", m.add_demand, x["s"], x["d"], x["t"], x["n"])
                else:
                    c.must("add_rsvp_lsp", m.add_rsvp_lsp, x["s"], x["d"], x["n"])
                    o = m.get_rsvp_lsp(x["s"], x["d"], x["n"])
                    if x["bw"] is not None:
                        o.configured_setup_bandwidth = x["bw"]
                    if x["m"] is not None:
                        o.manual_metric = x["m"]
            queue = nxt
            if rng.random() < 0.3:
                self.update(m)
        for x in sp["circuits"]:
            if x["failed"]:
                c.must("fail_interface", m.fail_interface, x["an"], x["a"])
        for x in sp["nodes"]:
            if x["failed"]:
                c.must("fail_node", m.fail_node, x["name"])
        return m

    def _add_circuit(self, m, x):
        c = self.c
        kw = {"circuit_id": x["id"]} if self.flex else {}
        args = [m.get_node_object(x["a"]), m.get_node_object(x["b"]), x["an"], x["bn"], x["ac"], x["bc"], x["cap"], x["failed"]]
        named = c.rng.randint(4, 8)
        for i, (n, dflt) in enumerate((("cost_intf_a", 1), ("cost_intf_b", 1), ("capacity", 1000), ("failed", False)), 4):
            # from some argument on by name, and left out where it is the default
            if i >= named and (args[i] != dflt or c.rng.random() < 0.3):
                kw[n] = args[i]
        c.must("add_circuit", m.add_circuit, *args[:named], **kw)
        ia = m.get_interface_object(x["an"], x["a"])
        ib = m.get_interface_object(x["bn"], x["b"])
        ia.rsvp_enabled, ib.rsvp_enabled = x["arsvp"], x["brsvp"]
        ia.percent_reservable_bandwidth, ib.percent_reservable_bandwidth = x["apct"], x["bpct"]

    # -- shadow helpers --
    def node(self, name):
        return next(x for x in self.sp["nodes"] if x["name"] == name)

    def _down_at(self, name):
        for x in self.sp["circuits"]:
            if name in (x["a"], x["b"]):
                x["failed"] = True

    def held(self, kind, ident, but=None):
        return any(g["failed"] and ident in g[kind] for n, g in self.srlgs.items() if n != but)

    def names(self):
        return [x["name"] for x in self.sp["nodes"]]

    def ckey(self, x):
        return (x["a"], x["an"])

    # -- operations; each does the real thing and moves the shadow --
    def update(self, m=None):
        self.c.n["updates_run"] += 1
        self.c.must("update_simulation", (m or self.m).update_simulation)

    def op_fail_interface(self, x, side, via):
        self.c.note("fail_interface", self.ckey(x), side, via)
        name, node = x[side + "n"], x[side]
        if via == "iface":
            self.c.must("Interface.fail_interface", self.m.get_interface_object(name, node).fail_interface, self.m)
        else:
            self.c.must("fail_interface", self.m.fail_interface, name, node)
        x["failed"] = True

    def op_unfail_interface(self, x, side, via):
        self.c.note("unfail_interface", self.ckey(x), side, via)
        name, node = x[side + "n"], x[side]
        down = self.node(x["a"])["failed"] or self.node(x["b"])["failed"]
        held = self.held("circuits", self.ckey(x))
        if via == "iface":
            f, a = self.m.get_interface_object(name, node).unfail_interface, (self.m,)
        elif via == "raise":
            f, a = self.m.unfail_interface, (name, node, True)
        else:
            f, a = self.m.unfail_interface, (name, node)
        if (down and via in ("iface", "raise")) or (held and not down):
            self.c.must_raise("unfail_interface(%s) of %s on %s (node down: %s, SRLG failed: %s)" % (via, name, node, down, held), f, *a)
        elif held and down:
            try:
                f(*a)
            except env.ModelException:
                pass
        else:
            self.c.must("unfail_interface", f, *a)
        x["failed"] = down or held

    def op_fail_node(self, x):
        self.c.note("fail_node", x["name"])
        self.c.must("fail_node", self.m.fail_node, x["name"])
        x["failed"] = True
        self._down_at(x["name"])

    def op_mark_failed(self, x, side):
        """Failing one end of a circuit by assigning its state; the next update fails the other end."""
        self.c.note("interface.failed = True, update", self.ckey(x), side)
        i = self.m.get_interface_object(x[side + "n"], x[side])
        known = any(i in (k.interface_a, k.interface_b) for k in self.m.circuit_objects)
        i.failed = True
        if known:
            k = self.c.must("get_circuit_object_from_interface", self.m.get_circuit_object_from_interface, x[side + "n"], x[side])
            self.c.check(k.failed(self.m) is True, lambda: "a circuit with a failed interface does not count as failed: %r" % (k,))
            self.c.n["half_failed_circuits_asked"] += 1
        x["failed"] = True
        groups = [g for g in sorted(self.srlgs) if not self.srlgs[g]["failed"] and (
            self.ckey(x) in self.srlgs[g]["circuits"] or {x["a"], x["b"]} & set(self.srlgs[g]["nodes"]))]
        then = self.c.rng.choice(["update", "node", "node", "interface", "validate"] + ["group"] * 4 * bool(groups)) if known else "update"
        if then == "group":
            self.op_fail_srlg(self.c.rng.choice(groups))
            self.c.n["half_failed_circuits_of_failed_groups"] += 1
        elif then == "node":
            self.op_fail_node(self.node(x[self.c.rng.choice("ab")]))
            self.c.n["half_failed_circuits_of_failed_nodes"] += 1
        elif then == "interface":
            self.op_fail_interface(x, self.c.rng.choice("ab"), self.c.rng.choice(["model", "iface"]))
        elif then == "validate":
            self.c.must("validate_model", self.m.validate_model)
            for p in "ab":
                o = self.c.must("get_interface_object", self.m.get_interface_object, x[p + "n"], x[p])
                self.c.check(o.failed is True, lambda: "validate_model leaves one end of a circuit up whose other end is failed: %r" % (o,))
            self.c.n["half_failed_circuits_validated"] += 1
        else:
            self.update()

    def op_mark_node_failed(self, x):
        self.c.note("node.failed = True, update", x["name"])
        self.m.get_node_object(x["name"]).failed = True
        x["failed"] = True
        self._down_at(x["name"])
        self.update()

    def _node_up(self, x):
        x["failed"] = False
        for k in self.sp["circuits"]:
            if x["name"] in (k["a"], k["b"]):
                o = k["b"] if k["a"] == x["name"] else k["a"]
                if not self.node(o)["failed"] and not self.held("circuits", self.ckey(k)):
                    k["failed"] = False

    def op_unfail_node(self, x):
        self.c.note("unfail_node", x["name"])
        if self.held("nodes", x["name"]):
            self.c.must_raise("unfail_node of %s, a member of a failed SRLG" % x["name"], self.m.unfail_node, x["name"])
            return
        self.c.must("unfail_node", self.m.unfail_node, x["name"])
        self._node_up(x)

    def op_add_srlg(self, name):
        self.c.note("add_srlg", name)
        self.c.must("add_srlg", self.m.add_srlg, name)
        self.srlgs[name] = {"failed": False, "nodes": set(), "circuits": set()}

    def op_join_node(self, g, x, create):
        self.c.note("node.add_to_srlg", x["name"], g, create)
        self.c.must("Node.add_to_srlg", self.m.get_node_object(x["name"]).add_to_srlg, g, self.m, create)
        self.srlgs.setdefault(g, {"failed": False, "nodes": set(), "circuits": set()})["nodes"].add(x["name"])

    def op_join_circuit(self, g, x, side, create):
        self.c.note("interface.add_to_srlg", self.ckey(x), side, g, create)
        o = self.m.get_interface_object(x[side + "n"], x[side])
        self.c.must("Interface.add_to_srlg", o.add_to_srlg, g, self.m, create)
        self.srlgs.setdefault(g, {"failed": False, "nodes": set(), "circuits": set()})["circuits"].add(self.ckey(x))

    def op_leave_node(self, g, x):
        self.c.note("node.remove_from_srlg", x["name"], g)
        f = self.m.get_node_object(x["name"]).remove_from_srlg
        self.srlgs[g]["nodes"].discard(x["name"])
        if self.held("nodes", x["name"]):
            self.c.must_raise("Node.remove_from_srlg while another SRLG of the node is failed", f, g, self.m)
            x["failed"] = True
        else:
            self.c.must("Node.remove_from_srlg", f, g, self.m)
            x["failed"] = False

    def op_leave_circuit(self, g, x, side):
        self.c.note("interface.remove_from_srlg", self.ckey(x), side, g)
        f = self.m.get_interface_object(x[side + "n"], x[side]).remove_from_srlg
        self.srlgs[g]["circuits"].discard(self.ckey(x))
        down = self.node(x["a"])["failed"] or self.node(x["b"])["failed"]
        if self.held("circuits", self.ckey(x)):
            self.c.must_raise("Interface.remove_from_srlg while another SRLG of it is failed", f, g, self.m)
            x["failed"] = True
        else:
            self.c.must("Interface.remove_from_srlg", f, g, self.m)
            x["failed"] = down

    def op_fail_srlg(self, g):
        self.c.note("fail_srlg", g)
        self.c.must("fail_srlg", self.m.fail_srlg, g)
        self.srlgs[g]["failed"] = True
        for n in self.srlgs[g]["nodes"]:
            self.node(n)["failed"] = True
            self._down_at(n)
        for x in self.sp["circuits"]:
            if self.ckey(x) in self.srlgs[g]["circuits"]:
                x["failed"] = True

    def op_unfail_srlg(self, g):
        self.c.note("unfail_srlg", g)
        self.c.must("unfail_srlg", self.m.unfail_srlg, g)
        self.srlgs[g]["failed"] = False
        ups = [self.node(n) for n in self.srlgs[g]["nodes"] if not self.held("nodes", n)]
        for x in ups:
            x["failed"] = False
        for x in ups:
            self._node_up(x)
        for x in self.sp["circuits"]:
            if self.ckey(x) in self.srlgs[g]["circuits"] and not self.held("circuits", self.ckey(x)):
                if not self.node(x["a"])["failed"] and not self.node(x["b"])["failed"]:
                    x["failed"] = False

    # configuration changes
    def taken(self, p):
        """Names in use by elements of the kind that a name starting with p is for."""
        sp = self.sp
        if p in ("N", "L"):
            return [x["name"] for x in sp["nodes"]]
        if p in ("i", "li", "ren"):
            return [x[k] for x in sp["circuits"] for k in ("an", "bn")]
        if p in ("d", "l"):
            return [x["n"] for x in sp["demands" if p == "d" else "lsps"]]
        if p == "g":
            return sorted(self.srlgs)
        return [str(x["id"]) for x in sp["circuits"]]

    def fresh(self, p):
        """A new name, at times a word of the package's own or one that resembles a name in use."""
        rng = self.c.rng
        self.counter += 1
        nm = "%s_new%d" % (p, self.counter)
        have = self.taken(p)
        while nm in self.given or nm in have:
            nm += "+"
        r = rng.random()
        alt = nm
        if r < 0.1:
            alt = rng.choice(gen.WORDS)
        elif r < 0.4 and have:
            x = rng.choice(have)
            alt = rng.choice([x.upper(), x.lower(), x.swapcase(), x + "1", x + " ", " " + x, x[:-1] or nm, x + x[-1:]])
        if alt in have or alt in self.given or not alt:
            alt = nm
        self.given.add(alt)
        return alt

    def twin(self, what, s, d, nm):
        """At times the key of a new demand or LSP that reads as that of an existing one once joined."""
        rng = self.c.rng
        if len(self.sp[what]) and rng.random() < 0.4:
            tw = gen.twins(self.names())
            have = {(x["s"], x["d"], x["n"]) for x in self.sp[what]}
            can = [(a, b, x["n"]) for x in self.sp[what] for a, b in tw.get((x["s"], x["d"]), ()) if (a, b, x["n"]) not in have]
            if can:
                self.c.n["colliding_keys_added"] += 1
                return rng.choice(can)
        return s, d, nm

    def op_add_node(self):
        nm = self.fresh("N")
        self.c.note("add_node", nm)
        self.c.must("add_node", self.m.add_node, env.Node(nm, 3, 4))
        S.add_node(self.sp, nm, 3, 4)

    def op_add_circuit(self, a, b):
        rng = self.c.rng
        ids = {x["id"] for x in self.sp["circuits"]}
        spare = [v for y in sorted(ids, key=str) for v in ((str(y),) if isinstance(y, int) else (int(y),) if y.isdigit() else ()) if v not in ids]
        S.add_circuit(self.sp, rng.choice(spare) if spare and rng.random() < 0.4 else self.fresh("c"), a, b, self.fresh("i"), self.fresh("i"), rng.choice([1, rng.randint(1, 40)]), rng.choice([1, rng.randint(1, 40)]),
                      rng.choice([100, 500, 1200, 1000]), failed=rng.random() < 0.12)
        x = self.sp["circuits"][-1]
        self.c.note("add_circuit", dict(x))
        self._add_circuit(self.m, x)
        x["failed"] = x["failed"] or self.node(a)["failed"] or self.node(b)["failed"]

    def op_drop_circuit(self, x):
        """Interfaces are removed by discarding them from the model's interface set."""
        self.c.note("drop circuit", self.ckey(x))
        for side in "ab":
            self.m.interface_objects.remove(self.m.get_interface_object(x[side + "n"], x[side]))
        self.sp["circuits"].remove(x)
        for g in self.srlgs.values():
            g["circuits"].discard(self.ckey(x))
        self.update()

    def op_add_demand(self, s, d, t):
        rng = self.c.rng
        nm = self.fresh("d")
        if rng.random() < 0.15 and not any((x["s"], x["d"], x["n"]) == (s, d, "none") for x in self.sp["demands"]):
            nm = "none"
        if rng.random() < 0.05:
            t = 0
        s, d, nm = self.twin("demands", s, d, nm)
        self.c.note("add_demand", s, d, t, nm)
        kw = {"traffic": t, "name": nm}
        for k, dflt in (("traffic", 0), ("name", "none")):
            if kw[k] == dflt and rng.random() < 0.7:
                del kw[k]
        self.c.must("add_demand", self.m.add_demand, s, d, **kw)
        S.add_demand(self.sp, s, d, t, nm)

    def op_drop_demand(self, x):
        self.c.note("drop demand", x)
        self.m.demand_objects.remove(self.m.get_demand_object(x["s"], x["d"], x["n"]))
        self.sp["demands"].remove(x)

    def op_set_demand(self, x, t):
        self.c.note("set traffic", dict(x), t)
        self.m.get_demand_object(x["s"], x["d"], x["n"]).traffic = t
        x["t"] = t

    def op_add_lsp(self, s, d, bw, m):
        nm = self.fresh("l")
        s, d, nm = self.twin("lsps", s, d, nm)
        self.c.note("add_rsvp_lsp", s, d, nm, bw, m)
        self.c.must("add_rsvp_lsp", self.m.add_rsvp_lsp, s, d, nm)
        o = self.m.get_rsvp_lsp(s, d, nm)
        if bw is not None:
            o.configured_setup_bandwidth = bw
        if m is not None:
            o.manual_metric = m
        S.add_lsp(self.sp, s, d, nm, bw, m)

    def op_drop_lsp(self, x):
        self.c.note("drop lsp", dict(x))
        self.m.rsvp_lsp_objects.remove(self.m.get_rsvp_lsp(x["s"], x["d"], x["n"]))
        self.sp["lsps"].remove(x)
        self.update()

    def op_swap_lsp(self, x, s, d):
        """One LSP replaced by another in the model's set of LSPs."""
        nm = self.fresh("l")
        self.c.note("swap lsp", dict(x), s, d, nm)
        self.m.rsvp_lsp_objects.remove(self.m.get_rsvp_lsp(x["s"], x["d"], x["n"]))
        self.m.rsvp_lsp_objects.add(env.RSVP_LSP(self.m.get_node_object(s), self.m.get_node_object(d), nm))
        self.sp["lsps"].remove(x)
        S.add_lsp(self.sp, s, d, nm)
        self.update()

    def op_metric(self, x, m):
        self.c.note("manual_metric", dict(x), m)
        o = self.m.get_rsvp_lsp(x["s"], x["d"], x["n"])
        o.manual_metric = -1 if m is None else m
        x["m"] = m
        self.c.check(o.manual_metric == ("not set" if m is None else m), lambda: "manual metric of LSP %s set to %s is %s" % (x, m, o.manual_metric))

    def op_lsp_bw(self, x, bw):
        self.c.note("configured_setup_bandwidth", dict(x), bw)
        self.m.get_rsvp_lsp(x["s"], x["d"], x["n"]).configured_setup_bandwidth = bw
        x["bw"] = bw

    def op_cost(self, x, side, v):
        self.c.note("cost", self.ckey(x), side, v)
        self.m.get_interface_object(x[side + "n"], x[side]).cost = v
        x[side + "c"] = v

    def op_capacity(self, x, v):
        self.c.note("capacity", self.ckey(x), v)
        for side in "ab":
            self.m.get_interface_object(x[side + "n"], x[side]).capacity = v
        x["cap"] = v

    def op_rsvp(self, x, side, on, pct):
        self.c.note("rsvp", self.ckey(x), side, on, pct)
        o = self.m.get_interface_object(x[side + "n"], x[side])
        o.rsvp_enabled = on
        o.percent_reservable_bandwidth = pct
        x[side + "rsvp"], x[side + "pct"] = on, pct

    def op_shortcut(self, x, on):
        self.c.note("igp_shortcuts_enabled", x["name"], on)
        self.m.get_node_object(x["name"]).igp_shortcuts_enabled = on
        x["shortcuts"] = on

    def op_recable(self, x, y, side, yside):
        """Two parallel circuits exchange their ends on one node."""
        self.c.note("recable", self.ckey(x), side, self.ckey(y), yside)
        i = self.m.get_interface_object(x[side + "n"], x[side])
        j = self.m.get_interface_object(y[yside + "n"], y[yside])
        ends = [e.get_remote_interface(self.m) for e in (i, j)]
        i.circuit_id, j.circuit_id = j.circuit_id, i.circuit_id
        for f in ("n", "c", "rsvp", "pct"):
            x[side + f], y[yside + f] = y[yside + f], x[side + f]
        self.update()
        self.c.check([e.get_remote_interface(self.m) for e in (j, i)] == ends, lambda: "after %s and %s exchanged circuits, their remote interfaces are %s and %s, expected %s" % (
            i, j, i.get_remote_interface(self.m), j.get_remote_interface(self.m), ends[::-1]))

    def op_rename(self, x, side):
        nm = self.fresh("ren")
        self.c.note("change_interface_name", self.ckey(x), side, nm)
        old = self.ckey(x)
        i = self.m.get_interface_object(x[side + "n"], x[side])
        r = self.c.must("change_interface_name", self.m.change_interface_name, x[side], x[side + "n"], nm)
        self.c.check(r is i and i.name == nm, lambda: "change_interface_name of %s to %s returned %s" % (i, nm, r))
        x[side + "n"] = nm
        for g in self.srlgs.values():
            if old in g["circuits"]:
                g["circuits"].discard(old)
                g["circuits"].add(self.ckey(x))

    # -- random choice of an operation --
    MARK = ["mark_failed", "mark_failed", "mark_node_failed"]
    FAIL = ["fail_interface", "unfail_interface", "fail_node", "unfail_node"]
    SRLG = ["srlg_new", "join", "join", "leave", "fail_srlg", "fail_srlg", "unfail_srlg", "unfail_srlg"]
    CONF = ["add_node", "add_circuit", "drop_circuit", "add_demand", "drop_demand", "set_demand", "add_lsp", "drop_lsp", "swap_lsp",
            "metric", "lsp_bw", "cost", "cost", "capacity", "rsvp", "shortcut", "rename", "recable"]

    def step(self, menu):
        """Perform one random operation; returns its name, or None when it does not apply."""
        rng, sp = self.c.rng, self.sp
        op = rng.choice(menu)
        ck, nodes = sp["circuits"], sp["nodes"]
        side = rng.choice("ab")
        names = self.names()
        done = op
        if op == "fail_interface" and ck:
            self.op_fail_interface(rng.choice(ck), side, rng.choice(["model", "iface"]))
        elif op == "unfail_interface" and ck:
            down = [x for x in ck if x["failed"]]
            x = rng.choice(down) if down and rng.random() < 0.85 else rng.choice(ck)
            self.op_unfail_interface(x, side, rng.choice(["model", "iface", "raise"]))
        elif op == "fail_node":
            self.op_fail_node(rng.choice(nodes))
        elif op == "unfail_node":
            down = [x for x in nodes if x["failed"]]
            x = rng.choice(down) if down and rng.random() < 0.9 else rng.choice(nodes)
            self.op_unfail_node(x)
        elif op == "mark_failed" and ck:
            self.op_mark_failed(rng.choice(ck), side)
        elif op == "mark_node_failed":
            self.op_mark_node_failed(rng.choice(nodes))
        elif op == "srlg_new":
            if len(self.srlgs) >= 4:
                return None
            self.op_add_srlg(self.fresh("g"))
        elif op == "join":
            ok = [g for g in sorted(self.srlgs) if not self.srlgs[g]["failed"]]
            create = (not ok) or (rng.random() < 0.15 and len(self.srlgs) < 4)
            g = self.fresh("g") if create else rng.choice(ok)
            if ck and rng.random() < 0.6:
                self.op_join_circuit(g, rng.choice(ck), side, create)
            else:
                self.op_join_node(g, rng.choice(nodes), create)
        elif op == "leave":
            cand = [(g, "n", n) for g in sorted(self.srlgs) for n in sorted(self.srlgs[g]["nodes"])]
            cand += [(g, "c", k) for g in sorted(self.srlgs) for k in sorted(self.srlgs[g]["circuits"])]
            if not cand:
                return None
            g, t, k = rng.choice(cand)
            if t == "n":
                self.op_leave_node(g, self.node(k))
            else:
                self.op_leave_circuit(g, next(x for x in ck if self.ckey(x) == k), side)
        elif op == "fail_srlg" and self.srlgs:
            self.op_fail_srlg(rng.choice(sorted(self.srlgs)))
        elif op == "unfail_srlg" and self.srlgs:
            down = [g for g in sorted(self.srlgs) if self.srlgs[g]["failed"]]
            self.op_unfail_srlg(rng.choice(down) if down and rng.random() < 0.9 else rng.choice(sorted(self.srlgs)))
        elif op == "add_node" and len(nodes) < 14:
            self.op_add_node()
        elif op == "add_circuit" and len(names) > 1:
            a, b = rng.sample(names, 2)
            if not self.flex and any({x["a"], x["b"]} == {a, b} for x in ck):
                return None
            self.op_add_circuit(a, b)
        elif op == "drop_circuit" and len(ck) > 1:
            self.op_drop_circuit(rng.choice(ck))
        elif op == "add_demand" and len(names) > 1:
            s, d = rng.sample(names, 2)
            if sp["lsps"] and rng.random() < 0.4:
                x = rng.choice(sp["lsps"])
                s, d = x["s"], x["d"]
            self.op_add_demand(s, d, gen.traffic(rng, rng.choice(["clean", "frac", "odd"])))
        elif op == "drop_demand" and sp["demands"]:
            self.op_drop_demand(rng.choice(sp["demands"]))
        elif op == "set_demand" and sp["demands"]:
            self.op_set_demand(rng.choice(sp["demands"]), rng.choice([0, gen.traffic(rng, "odd")] + [gen.traffic(rng, rng.choice(["clean", "frac"]))] * 4))
        elif op == "add_lsp" and len(names) > 1 and len(sp["lsps"]) < 7:
            s, d = rng.sample(names, 2)
            if sp["demands"] and rng.random() < 0.7:
                x = rng.choice(sp["demands"])
                if x["s"] != x["d"]:
                    s, d = x["s"], x["d"]
            self.op_add_lsp(s, d, rng.choice([None, None, 30, 60]), rng.choice([None, None, None, 5, 20]))
        elif op == "drop_lsp" and sp["lsps"]:
            self.op_drop_lsp(rng.choice(sp["lsps"]))
        elif op == "swap_lsp" and sp["lsps"]:
            s, d = rng.sample(names, 2)
            if sp["demands"] and rng.random() < 0.7:
                x = rng.choice(sp["demands"])
                if x["s"] != x["d"]:
                    s, d = x["s"], x["d"]
            self.op_swap_lsp(rng.choice(sp["lsps"]), s, d)
        elif op == "metric" and sp["lsps"]:
            self.op_metric(rng.choice(sp["lsps"]), rng.choice([None, 1, 5, 10, 50]))
        elif op == "lsp_bw" and sp["lsps"]:
            self.op_lsp_bw(rng.choice(sp["lsps"]), rng.choice([None, 30, 60, 45.5]))
        elif op == "cost" and ck:
            self.op_cost(rng.choice(ck), side, rng.randint(1, 30))
        elif op == "capacity" and ck:
            # not below what is reserved now: validation looks at the last results
            x = rng.choice(ck)
            self.op_capacity(x, x["cap"] + rng.choice([20, 100, 333]))
        elif op == "rsvp" and ck:
            self.op_rsvp(rng.choice(ck), side, rng.random() < 0.6, rng.choice([100, 50, 75]))
        elif op == "shortcut" and self.flex:
            self.op_shortcut(rng.choice(nodes), rng.random() < 0.6)
        elif op == "recable" and self.flex:
            grouped = {k for g in self.srlgs.values() for k in g["circuits"]}
            free = [x for x in ck if self.ckey(x) not in grouped]
            pairs = [(x, y) for n, x in enumerate(free) for y in free[n + 1:]
                     if {x["a"], x["b"]} == {y["a"], y["b"]} and (x["cap"], x["failed"]) == (y["cap"], y["failed"]) and x["a"] != x["b"]]
            if not pairs:
                return None
            x, y = rng.choice(pairs)
            self.op_recable(x, y, side, "a" if y["a"] == x[side] else "b")
        elif op == "rename" and ck:
            self.op_rename(rng.choice(ck), side)
        else:
            return None
        self.ops += 1
        self.c.n["op_" + done] += 1
        return done

    # -- comparing the real configuration with the shadow --
    def expected(self):
        sp = self.sp
        ifs = {}
        for x in sp["circuits"]:
            for s, o in (("a", "b"), ("b", "a")):
                ifs[(x[s], x[s + "n"])] = {
                    "remote": x[o], "cost": x[s + "c"], "cap": x["cap"], "failed": x["failed"],
                    "rsvp": x[s + "rsvp"], "pct": x[s + "pct"], "ckt": x["id"] if self.flex else None,
                }
        return {
            "nodes": {x["name"]: {"failed": x["failed"], "shortcuts": x["shortcuts"], "lat": x["lat"], "lon": x["lon"]} for x in sp["nodes"]},
            "ifaces": ifs,
            "lsps": {(x["s"], x["d"], x["n"]): (x["bw"], x["m"] if x["m"] is not None else "not set") for x in sp["lsps"]},
            "demands": {(x["s"], x["d"], x["n"]): x["t"] for x in sp["demands"]},
        }

    def compare(self, what="state", obs=None):
        o = obs or observe(self.m)
        e = self.expected()
        c = self.c
        c.n["configs_compared"] += 1
        for k, w in e["nodes"].items():
            g = o.nodes.get(k)
            if g != w:
                c.bad("%s: node %s is %s, expected %s" % (what, k, g, w))
        for k in o.nodes:
            if k not in e["nodes"]:
                c.bad("%s: unexpected node %s" % (what, k))
        if o.dup_ifaces:
            c.bad("%s: %d duplicate interfaces" % (what, o.dup_ifaces))
        for k, w in e["ifaces"].items():
            g = o.ifaces.get(k)
            if g is None:
                c.bad("%s: interface %s is gone" % (what, k))
                continue
            for f, v in w.items():
                if f == "ckt" and v is None:
                    continue
                if g[f] != v:
                    c.bad("%s: interface %s has %s %r, expected %r" % (what, k, f, g[f], v))
        for k in o.ifaces:
            if k not in e["ifaces"]:
                c.bad("%s: unexpected interface %s" % (what, k))
        gl = {k: (v["conf"], v["manual"]) for k, v in o.lsps.items()}
        if gl != e["lsps"]:
            c.bad("%s: LSPs are %s, expected %s" % (what, gl, e["lsps"]))
        gd = {k: v["t"] for k, v in o.demands.items()}
        if gd != e["demands"]:
            c.bad("%s: demands are %s, expected %s" % (what, gd, e["demands"]))
        self.compare_lists(what)
        if self.srlgs:
            self.compare_srlgs(what)

    def compare_lists(self, what):
        """The model's own lists of what is failed, what is not and what is attached to what."""
        c, m, sp = self.c, self.m, self.sp
        both = [(x[a], x[a + "n"], x[b], x["failed"]) for x in sp["circuits"] for a, b in ("ab", "ba")]
        linked = {x[0] for x in both}
        for name, got, want in (
            ("get_failed_node_objects", m.get_failed_node_objects(), [x["name"] for x in sp["nodes"] if x["failed"]]),
            ("get_non_failed_node_objects", m.get_non_failed_node_objects(), [x["name"] for x in sp["nodes"] if not x["failed"]]),
            ("get_orphan_node_objects", m.get_orphan_node_objects(), [x["name"] for x in sp["nodes"] if x["name"] not in linked]),
        ):
            if sorted(x.name for x in got) != sorted(want):
                c.bad("%s: %s is %s, expected %s" % (what, name, sorted(x.name for x in got), sorted(want)))
        for name, got, want in (
            ("get_failed_interface_objects", m.get_failed_interface_objects(), [x[:2] for x in both if x[3]]),
            ("get_unfailed_interface_objects", m.get_unfailed_interface_objects(), [x[:2] for x in both if not x[3]]),
        ):
            if sorted(ikey(x) for x in got) != sorted(want):
                c.bad("%s: %s is %s, expected %s" % (what, name, sorted(ikey(x) for x in got), sorted(want)))
        for n in sorted(m.node_objects, key=lambda x: x.name)[:4]:
            want = sorted(x[:2] for x in both if x[0] == n.name)
            for name, got in (("Node.interfaces", n.interfaces(m)), ("get_node_interfaces", m.get_node_interfaces(n.name))):
                if sorted(ikey(x) for x in got) != want:
                    c.bad("%s: %s of %s is %s, expected %s" % (what, name, n.name, sorted(ikey(x) for x in got), want))
            got = sorted(x.name for x in n.adjacent_nodes(m))
            want = sorted({x[2] for x in both if x[0] == n.name})
            if got != want:
                c.bad("%s: Node.adjacent_nodes of %s is %s, expected %s" % (what, n.name, got, want))
            if m.is_node_an_orphan(n) != (n.name not in linked):
                c.bad("%s: is_node_an_orphan(%s) is %s" % (what, n.name, m.is_node_an_orphan(n)))
        c.n["failure_lists_compared"] += 1

    def compare_srlgs(self, what):
        c, m = self.c, self.m
        got = {g.name: g for g in m.srlg_objects}
        c.n["srlg_states_compared"] += 1
        if set(got) != set(self.srlgs):
            c.bad("%s: SRLGs are %s, expected %s" % (what, sorted(got), sorted(self.srlgs)))
            return
        for n, w in self.srlgs.items():
            g = got[n]
            if g is not m.get_srlg_object(n):
                c.bad("%s: get_srlg_object(%s) returns another object" % (what, n))
            if g.failed != w["failed"]:
                c.bad("%s: SRLG %s failed is %s, expected %s" % (what, n, g.failed, w["failed"]))
            wn = set(w["nodes"])
            wi = set()
            for x in self.sp["circuits"]:
                if self.ckey(x) in w["circuits"]:
                    wi |= {(x["a"], x["an"]), (x["b"], x["bn"])}
            gn = {x.name for x in g.node_objects}
            gi = {(x.node_object.name, x.name) for x in g.interface_objects}
            if gn != wn or gi != wi:
                c.bad("%s: SRLG %s has members %s %s, expected %s %s" % (what, n, gn, gi, wn, wi))
            for node in m.node_objects:
                if (g in node.srlgs) != (node.name in wn):
                    c.bad("%s: node %s lists SRLG %s: %s" % (what, node.name, n, g in node.srlgs))
            for i in m.interface_objects:
                if (g in i.srlgs) != ((i.node_object.name, i.name) in wi):
                    c.bad("%s: interface %s/%s lists SRLG %s: %s" % (what, i.node_object.name, i.name, n, g in i.srlgs))
        for node in m.node_objects:
            if len(node.srlgs) != sum(node.name in w["nodes"] for w in self.srlgs.values()):
                c.bad("%s: node %s has %d SRLGs" % (what, node.name, len(node.srlgs)))
