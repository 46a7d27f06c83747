"""Workload generators: topologies, demands, LSPs, failures, operation sequences."""
from collections import Counter

from . import spec as S

STYLES = ["letters", "pop", "prefix", "unicode", "digits", "hyphen", "case", "concat", "words", "collide"]
# words the package uses as values, keys or labels of its own
WORDS = ["Unrouted", "Down", "none", "None", "not set", "Int is down", "path_0", "interfaces", "items", "splits", "True", "False", "nan", "TBD",
         "Unrouted_detail", "midpoint", "failed", "node", "NODES", "A_B", "Unrouted 2", "[]", "{}", "'", '"', "%s", "{0}", "\\", "a,b", "a:b", "a/b"]


def node_names(rng, n, style=None):
    style = style or rng.choice(["letters"] + STYLES)
    if style == "letters":
        base = [chr(65 + i) for i in range(26)]
        names = base[:n] if n > 26 or rng.random() < 0.5 else rng.sample(base, min(n, 26))
    elif style == "pop":
        names = ["pop_%d.rtr" % i for i in rng.sample(range(1, 40 + n), n)]
    elif style == "prefix":
        names = ["A" * (i + 1) for i in range(n)] if rng.random() < 0.5 else ["N" + "1" * i for i in range(n)]
    elif style == "unicode":
        names = ["%s %d" % (rng.choice(["Zürich", "東京", "node", "São"]), i) for i in range(n)]
    elif style == "digits":
        names = [str(x) for x in rng.sample(range(0, 60 + n), n)]
    elif style == "case":
        # names that differ by their case, or by the spaces around them
        base = [v for x in ["ab", "c", "dE", "f g"] + ["n%d" % i for i in range(n)] for v in (x.lower(), x.upper(), x.title(), " " + x, x + " ")]
        names = sorted(set(base))
        names = rng.sample(names[:max(n, 18)], n)
    elif style == "words":
        names = rng.sample(WORDS + ["w%d" % i for i in range(max(0, n - len(WORDS) + 3))], n)
    elif style == "concat":
        # names whose concatenations coincide
        base = ["1", "11", "12", "2", "21", "122", "112", "22", "111", "221", "211", "222"] + [str(x) for x in range(300, 300 + n)]
        names = rng.sample(base[:max(n, 12)], n)
    elif style == "collide":
        # different pairs of names that read the same when joined by a separator
        sep = rng.choice(["-", "-", "-", "_", ":", " ", ",", "/", "->", "-to-", "."])
        base = [sep.join(x) for x in ("A", "AB", "B", "BC", "C", "ABC", "CD", "D", "BCD")] + ["A" + sep, sep + "B", sep]
        base += ["midpoint-" + rng.choice(base[:5]) + "-" + rng.choice(base[:5])]
        names = rng.sample(base[:max(n, 6)] if n <= 6 else base + ["e%d" % i for i in range(n)], n)
    else:
        names = ["site%d-r%d" % (i // 2, i % 2) for i in range(n)]
    return names


def costs(rng, mode):
    if mode == "unit":
        return 1
    if mode == "small":
        return rng.choice([1, 2, 3])
    if mode == "tens":
        return rng.choice([10, 20, 20, 30, 40])
    if mode == "tie":
        return rng.choice([5, 5, 5, 10])
    if mode == "near":
        return rng.choice([9999, 10000, 10000, 10001, 20000, 29999, 30000])
    if mode == "huge":
        return rng.choice([1, 10**6, 10**9, 2**53 + 1, 2**53 + 2, 2**60])
    return rng.randint(1, 10000)


def layer_edges(widths):
    """Every node of a layer linked with every node of the next; the outer layers are single nodes."""
    layers, k = [[0]], 1
    for w in list(widths) + [1]:
        layers.append(list(range(k, k + w)))
        k += w
    return [(a, b) for x, y in zip(layers, layers[1:]) for a in x for b in y]


LAYERS = [(17,), (3, 7), (5, 5), (4, 3, 3), (4, 3, 4), (5, 4, 4), (33,), (2, 2, 2, 2, 2), (8, 9), (2, 2, 2, 2, 2, 2), (5, 5, 5), (6, 11)]


def edges(rng, n, family, parallel):
    """Undirected edge list over range(n), possibly with repeats (parallel links)."""
    e = []
    if isinstance(family, tuple):
        e = layer_edges(family)
        parallel = parallel and len(e) < 25
    elif family == "ring":
        e = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(i, i + 1) for i in range(n - 1)]
    elif family == "grid":
        w = 2 if n < 6 else 3
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                e.append((i, i + 1))
            if i + w < n:
                e.append((i, i + w))
    elif family == "full":
        m = min(n, 6)
        e = [(i, j) for i in range(m) for j in range(i)]
        for i in range(m, n):
            e.append((i, rng.randrange(i)))
    elif family == "diamonds":
        i = 0
        while i + 3 < n:
            e += [(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]
            if rng.random() < 0.3:
                e.append((i + 1, i + 2))
            i += 3
        for j in range(i + 1, n):
            e.append((j - 1, j))
    elif family == "line":
        e = [(i, i + 1) for i in range(n - 1)]
    elif family == "ladder":
        h = n // 2
        for i in range(h):
            e.append((2 * i, 2 * i + 1))
            if i + 1 < h:
                e += [(2 * i, 2 * i + 2), (2 * i + 1, 2 * i + 3)]
        if n % 2 and n > 1:
            e.append((n - 1, 0))
    elif family == "split":
        h = max(2, n // 2)
        e = [(i, i + 1) for i in range(h - 1)] + [(i, i + 1) for i in range(h, n - 1)]
        if n - h > 2:
            e.append((h, n - 1))
    else:  # random
        for i in range(1, n):
            if rng.random() < 0.95:
                e.append((i, rng.randrange(i)))
        extra = rng.randint(0, n)
        for _ in range(extra):
            a, b = rng.sample(range(n), 2) if n > 1 else (0, 0)
            if a != b and (a, b) not in e and (b, a) not in e:
                e.append((a, b))
    out = []
    for a, b in e:
        if a == b or max(a, b) >= n or (not parallel and ((a, b) in out or (b, a) in out)):
            continue
        out.append((a, b))
        if parallel:
            r = rng.random()
            if r < 0.18:
                out.append((a, b) if rng.random() < 0.5 else (b, a))
                if r < 0.05:
                    out.append((a, b))
                    if r < 0.01:
                        out += [(a, b)] * rng.randint(1, 9)
    return out


FAMILIES = ["random", "random", "random", "ring", "grid", "full", "diamonds", "line", "ladder", "split"]


def topology(rng, kind, n=None, family=None, costmode=None, nmax=9, cap_mode=None, rsvp_mode=None, style=None,
             parallel=None, bidir=False, orphans=True):
    sp = S.new_spec(kind)
    n = n or rng.randint(2, nmax)
    family = family or rng.choice(FAMILIES)
    if isinstance(family, tuple):
        n = sum(family) + 2
    costmode = costmode or rng.choice(["unit", "small", "small", "small", "tens", "tens", "tie", "tie", "wide", "wide", "near", "huge"])
    cap_mode = cap_mode or rng.choice(["flat", "mixed", "tight"])
    rsvp_mode = rsvp_mode or rng.choice(["on", "on", "some", "pct", "mix"])
    names = node_names(rng, n, style)
    coord = rng.choice(["int", "float", "zero"])
    for nm in names:
        if coord == "int":
            la, lo = rng.randint(-60, 60), rng.randint(-180, 180)
        elif coord == "float":
            la, lo = round(rng.uniform(-60, 60), 3), round(rng.uniform(-180, 180), 3)
        else:
            la, lo = 0, 0
        S.add_node(sp, nm, la, lo)
    par = S.is_flex(kind) if parallel is None else (parallel and S.is_flex(kind))
    es = edges(rng, n, family, par)
    idmode = rng.choice(["int", "str", "big", "big", "mixed"])
    ids = list(range(1, len(es) + 1))
    if idmode == "big":
        ids = rng.sample(range(1, 5000), len(es))
    if idmode == "mixed":
        # 1 and "1" are different ids
        ids = [x // 2 if x % 2 else str(x // 2) for x in range(2, len(es) + 2)]
    if idmode == "str":
        ids = ["ckt%d" % x for x in ids]
    if rng.random() < 0.3:
        rng.shuffle(ids)
    namemode = rng.choice(["to", "eth", "num", "to", "eth", "case", "words"])
    port = {}
    last = {}
    asym = rng.random() < 0.35 and not bidir
    for c, (a, b) in zip(ids, es):
        na, nb = names[a], names[b]

        def nmi(x, y):
            port[x] = port.get(x, 0) + 1
            if namemode == "eth":
                return "eth%d" % port[x]
            if namemode in ("case", "words"):
                ns = WORDS if namemode == "words" else ["Ge0", "ge0", "GE0", "gE0", "ge0 ", " ge0", "ge01", "e0"]
                return ns[(port[x] - 1) % len(ns)] + ("" if port[x] <= len(ns) else str(port[x]))
            if namemode == "num":
                return "%d/%d" % (port[x] % 2, port[x])
            return "%s-to-%s_%s" % (x, y, c if isinstance(c, int) else c + ".")

        pair = (min(a, b), max(a, b))
        ac = costs(rng, costmode)
        if pair in last and rng.random() < 0.65:
            ac = last[pair]
        last[pair] = ac
        bc = costs(rng, costmode) if asym else ac
        if cap_mode == "flat":
            cap = 1200
        elif cap_mode == "mixed":
            cap = rng.choice([60, 120, 240, 600, 1200, 6000, 62.5, 10**5 + 0.5, 10**6 + 0.3])
        else:
            cap = rng.choice([60, 120, 180, 240])
        ar = br = True
        ap = bp = 100
        if rsvp_mode in ("some", "mix") and rng.random() < 0.25:
            ar = br = False
            if rng.random() < 0.3:
                ar = True
        if rsvp_mode in ("pct", "mix") and rng.random() < 0.5:
            ap = rng.choice([100, 50, 25, 80, 0, 33.5])
            bp = ap if rng.random() < 0.7 else rng.choice([100, 50])
        S.add_circuit(sp, c, na, nb, nmi(na, nb), nmi(nb, na), ac, bc, cap, ar, br, ap, bp)
    if orphans and rng.random() < 0.15:
        for i in range(rng.choice([1, 1, 1, 2])):
            S.add_node(sp, "orphan" + str(i or ""), *rng.choice([(1, 2), (0, 0)]))
    return sp


def wide(rng, kind):
    """A network with many equal-cost paths between two nodes, the first and the last."""
    sp = topology(rng, kind, family=rng.choice(LAYERS), costmode="unit", cap_mode="flat", style=rng.choice(["pop", "digits"]),
                  bidir=True, orphans=False)
    return wide_ends(rng, sp)


def bundles(rng, kind):
    """A line of bundles of parallel links: one node path, many interface paths."""
    hops = rng.randint(2, 5)
    sp = topology(rng, kind, n=hops + 1, family="line", costmode="unit", cap_mode="flat", parallel=False, bidir=True, orphans=False)
    top = {2: 25, 3: 9, 4: 5, 5: 3}[hops]
    first = {}
    for x in list(sp["circuits"]):
        first[frozenset((x["a"], x["b"]))] = 1
        for j in range(rng.randint(1, top) if rng.random() < 0.4 else top):
            S.add_circuit(sp, "b%s.%d" % (len(sp["circuits"]), j), x["a"], x["b"], "ba%d" % len(sp["circuits"]), "bb%d" % len(sp["circuits"]), x["ac"], x["bc"], x["cap"])
    return wide_ends(rng, sp)


def wide_shortcuts(rng, kind):
    """Many equal-cost paths of which few meet a node with a shortcut LSP."""
    sp = wide(rng, kind)
    last = sp["nodes"][-1]["name"]
    mids = [x for x in sp["nodes"][1:-1]]
    for i in range(rng.choice([1, 1, 2, 3])):
        x = rng.choice(mids)
        x["shortcuts"] = True
        S.add_lsp(sp, x["name"], last, "w%d" % i, rng.choice([None, 0, 5]), rng.choice([None, None, 1, 2, 3]))
        if rng.random() < 0.3:
            S.add_lsp(sp, x["name"], last, "w%d b" % i, 0)
    if rng.random() < 0.3:
        S.add_lsp(sp, last, rng.choice(mids)["name"], "back", 0)
    return sp


def wide_detours(rng, kind):
    """Many least-cost paths between two nodes, few of them of the fewest hops; LSPs between the two."""
    sp = S.new_spec(kind)
    n = rng.randint(4, 24)
    names = node_names(rng, 2 * n + 2, rng.choice(["pop", "digits"]))
    for x in names:
        S.add_node(sp, x)
    s, d, mids = names[0], names[1], names[2:]
    few = rng.choice([1, 1, 1, 2])
    cap = rng.choice([100, 1000])
    links = []
    for i in range(n):
        u, v = mids[2 * i], mids[2 * i + 1]
        cut = i % (n - 1) if few == 2 else i
        if cut == 0:
            x = rng.randint(1, 19)
            links += [(s, u, x), (u, d, 20 - x)]
        else:
            x = rng.randint(1, 9)
            links += [(s, u, x), (u, v, 10), (v, d, 10 - x)]
    rng.shuffle(links)
    for i, (a, b, k) in enumerate(links):
        S.add_circuit(sp, i + 1, a, b, "p%d" % (2 * i), "p%d" % (2 * i + 1), k, k, cap)
    for i in range(rng.randint(1, 3)):
        a, b = rng.choice([(s, d), (s, d), (d, s)])
        S.add_lsp(sp, a, b, "det%d" % i, rng.choice([None, 0, 10, 60]))
    S.add_demand(sp, s, d, traffic(rng, "clean"), "det")
    if rng.random() < 0.2:
        rng.choice(sp["circuits"])["failed"] = True
    return sp


def fan(rng, kind, k):
    """k ways of the same cost and number of hops from the first node to the last, and some worse ones."""
    sp = S.new_spec(kind)
    names = node_names(rng, k + 4, rng.choice(["pop", "digits", "prefix"]))
    for x in names:
        S.add_node(sp, x)
    s, d = names[0], names[-1]
    links = []
    for i in range(k):
        x = rng.randint(1, 9)
        links += [(s, names[1 + i], x), (names[1 + i], d, 10 - x)]
    u, v = names[k + 1:k + 3]
    r = rng.random()
    if r < 0.4:
        links += [(s, u, 3), (u, v, 4), (v, d, 3)]          # as cheap, one hop more
    elif r < 0.8:
        links += [(s, u, 5), (u, d, 7)]                     # as many hops, dearer
    rng.shuffle(links)
    for i, (a, b, c) in enumerate(links):
        S.add_circuit(sp, i + 1, a, b, "p%d" % (2 * i), "p%d" % (2 * i + 1), c, c, 1000)
    return sp, s, d


def hub(rng, kind, most=34, large=0.2):
    """One node with very many circuits, to as many neighbours or (flexible model) also several to one."""
    k = rng.randint(10, most) if most < 20 or rng.random() > large else rng.randint(50, 120 if large > 0.3 else 70)
    sp = S.new_spec(kind)
    names = node_names(rng, k + 1, rng.choice(["pop", "digits", "prefix"]))
    for x in names:
        S.add_node(sp, x, lat=rng.randint(-60, 60), lon=rng.randint(-60, 60))
    mid, rim = names[0], names[1:]
    links = [(mid, x) for x in rim]
    links += [(rim[i], rim[i + 1]) for i in range(k - 1) if rng.random() < 0.15]
    if S.is_flex(kind):
        x = rng.choice(rim)
        links += [(x, mid)] * rng.choice([0, 0, 2, 20 if most > 20 else 5])
    rng.shuffle(links)
    for i, (a, b) in enumerate(links):
        S.add_circuit(sp, i + 1, a, b, "h%d" % (2 * i), "h%d" % (2 * i + 1), rng.choice([1, 5, rng.randint(1, 30)]), rng.choice([1, 5, rng.randint(1, 30)]),
                      rng.choice([300, 1000]))
    demands(rng, sp, count=rng.randint(1, 6))
    if rng.random() < 0.5:
        lsps(rng, sp, count=rng.randint(1, 4))
    return sp


def long_line(rng, kind):
    """Paths of many hops: a line or a ring of 12 to 24 nodes, seldom up to 72, at times with doubled links."""
    n = rng.randint(12, 24) if rng.random() < 0.85 else rng.randint(34, 72)
    sp = topology(rng, kind, n=n, family=rng.choice(["line", "line", "ring"]), costmode=rng.choice(["unit", "small", "tens"]), cap_mode="flat",
                  rsvp_mode=rng.choice(["on", "on", "pct"]), style=rng.choice(["pop", "digits", "prefix"]), parallel=n < 30 and rng.random() < 0.3)
    names = [x["name"] for x in sp["nodes"]][:n]
    for i in range(rng.randint(1, 3)):
        a, b = rng.sample([0, 0, rng.randrange(4)], 1)[0], rng.sample([n - 1, n - 1, n - 1 - rng.randrange(4)], 1)[0]
        if rng.random() < 0.3:
            a, b = b, a
        S.add_demand(sp, names[a], names[b], traffic(rng, rng.choice(["clean", "light", "frac"])), "far%d" % i)
        for j in range(rng.choice([0, 1, 1, 2])):
            S.add_lsp(sp, names[a], names[b], "far%d.%d" % (i, j), rng.choice([None, 0, 0, 5]), rng.choice([None, None, 5]))
        if S.is_flex(kind) and rng.random() < 0.4:
            x, y = sorted(rng.sample(range(n), 2))
            sp["nodes"][x]["shortcuts"] = True
            S.add_lsp(sp, names[x], names[y], "cut%d" % i, 0)
    if rng.random() < 0.3:
        rng.choice(sp["circuits"])["failed"] = True
    return sp


def crowd(rng, kind, less=False):
    """Many of everything: nodes, demands (also many alike), LSPs, groups of LSPs."""
    n = rng.choice([6, 8, 8, 14, 20] if less else [6, 8, 25, 40, 60])
    sp = topology(rng, kind, n=n, family=rng.choice(["random", "random", "ring", "ladder", "grid"]) if n < 40 else rng.choice(["random", "ladder"]),
                  costmode=rng.choice(["tens", "small", "wide"]), cap_mode=rng.choice(["flat", "mixed"]), rsvp_mode=rng.choice(["on", "some"]),
                  style=rng.choice(["pop", "digits", "prefix"]), parallel=rng.random() < 0.4)
    names = [x["name"] for x in sp["nodes"]]
    mode = rng.choice(["clean", "light", "frac", "odd"])
    if rng.random() < 0.4:
        a, b = rng.sample(names, 2)
        for i in range(rng.choice([11, 25] if less else [11, 33, 70, 130])):
            S.add_demand(sp, a, b, traffic(rng, mode), "same%d" % i)
    else:
        demands(rng, sp, count=rng.choice([30, 45] if less else [40, 70, 130]), mode=mode)
    r = rng.random()
    if r < 0.6:
        lsps(rng, sp, count=rng.choice([20, 25] if less else [20, 35, 60]), bwmode=rng.choice(["small", "small", "auto"]), metric=rng.choice([0, 0.3]), follow=0.9, group=rng.choice([0.2, 0.5, 0.97]))
    if S.is_flex(kind) and r < 0.3:
        shortcuts(rng, sp, rng.choice([0.3, 1.0]))
    trim(sp, 8000 if less else 15000)
    return sp


def trim(sp, limit):
    """Drops demands until an update looks up at most limit / nodes metrics of LSPs: each lookup searches the network."""
    on = Counter((x["s"], x["d"]) for x in sp["lsps"])
    some = any(x["shortcuts"] for x in sp["nodes"])
    left = limit / len(sp["nodes"])
    keep = []
    for x in sp["demands"]:
        left -= 4 * on[(x["s"], x["d"])] + (len(sp["lsps"]) if some else 0)
        if left < 0:
            break
        keep.append(x)
    sp["demands"][:] = keep


def wide_ends(rng, sp):
    ends = [sp["nodes"][0]["name"], sp["nodes"][-1]["name"]]
    for i in range(rng.randint(1, 2)):
        S.add_demand(sp, ends[i], ends[1 - i], traffic(rng, rng.choice(["clean", "frac"])), "w%d" % i)
    for x in rng.sample(sp["circuits"], rng.choice([0, 0, 1, 2])):
        x["failed"] = True
    return sp


def traffic(rng, mode):
    if mode == "clean":
        return rng.choice([60, 120, 240, 360, 720, 5040])
    if mode == "light":
        return rng.choice([6, 12, 24])
    if mode == "tiny":
        return rng.choice([0.1, 0.3, 0.5, 0.25, 0.04, 0.004])
    if mode == "frac":
        return round(rng.uniform(0, 300), rng.choice([0, 1, 2, 3]))
    return rng.choice([0, 1, 7, 10, 33, 100, 0.1, 0.04, 1e5, 10001, 99999.5, 12345678])


def twins(names):
    """Maps pairs of names to the other pairs that read the same when joined by some separator."""
    if len(names) > 16 or not any(a != b and (b.startswith(a) or b.endswith(a)) for a in names for b in names):
        return {}
    by = {}
    for a in names:
        for b in names:
            if a != b:
                for sep in ("", "-", " ", "_", ":", ",", "/", "->", "-to-", "."):
                    by.setdefault(a + sep + b, set()).add((a, b))
    out = {}
    for v in by.values():
        if len(v) > 1:
            for x in v:
                out.setdefault(x, set()).update(v - {x})
    return {k: sorted(v) for k, v in out.items()}


def add_twins(rng, sp, what, p=0.4):
    """Repeats demands or LSPs, under their names, between other nodes whose names read the same once joined."""
    tw = twins([x["name"] for x in sp["nodes"]]) if sp[what] and rng.random() < 0.6 else {}
    if not tw:
        return
    used = {(x["s"], x["d"], x["n"]) for x in sp[what]}
    for x in list(sp[what]):
        for a, b in tw.get((x["s"], x["d"]), ()):
            if rng.random() < p and (a, b, x["n"]) not in used:
                used.add((a, b, x["n"]))
                sp[what].append(dict(x, s=a, d=b))


def colliding(rng, kind):
    """Demands and LSPs between pairs of nodes whose names read the same when joined: (A, B-C) and (A-B, C)."""
    sep = rng.choice(["-", "-", "-", "_", ":", " ", ",", "/", "->", "-to-", "."])
    sp = topology(rng, kind, n=rng.randint(4, 7), style="letters", bidir=True, parallel=rng.random() < 0.3, rsvp_mode=rng.choice(["on", "on", "pct"]))
    x, y, z = rng.sample(["A", "B", "C", "core", "1", "2", "x y"], 3)
    new = [x, y + sep + z, x + sep + y, z] + ["other%d" % i for i in range(9)]
    old = [k["name"] for k in sp["nodes"]]
    rng.shuffle(old)
    nm = dict(zip(old, new))
    for k in sp["nodes"]:
        k["name"] = nm[k["name"]]
    for k in sp["circuits"]:
        k["a"], k["b"] = nm[k["a"]], nm[k["b"]]
    one, two = (new[0], new[1]), (new[2], new[3])
    if rng.random() < 0.5:
        one, two = two, one
    both = rng.random()
    for i in range(rng.randint(1, 2)):
        S.add_demand(sp, one[0], one[1], traffic(rng, rng.choice(["clean", "light", "frac"])), "d%d" % i)
        if both < 0.6:
            S.add_demand(sp, two[0], two[1], traffic(rng, "clean"), rng.choice(["d%d", "e%d"]) % i)
    for i in range(rng.randint(1, 3)):
        S.add_lsp(sp, two[0], two[1], "l%d" % i, rng.choice([None, None, 0, 5]), rng.choice([None, None, None, 7]))
        if both > 0.3 and rng.random() < 0.6:
            S.add_lsp(sp, one[0], one[1], "l%d" % i, rng.choice([None, None, 0, 5]), rng.choice([None, None, 7]))
    if S.is_flex(kind) and rng.random() < 0.5:
        other = rng.choice([k["name"] for k in sp["nodes"]])
        if other not in two:
            S.add_demand(sp, other, two[1], 24, "through")
        if other not in one:
            S.add_demand(sp, other, one[1], 36, "through2")
        shortcuts(rng, sp, 0.7)
    if rng.random() < 0.2:
        failures(rng, sp, 0.2, 0.0)
    if rng.random() < 0.6:
        collide(rng, sp)
    return sp


def colliding_interfaces(rng, sp, nm=None):
    """Interface names that read the same once joined to their nodes' names, for nodes whose names allow it."""
    ends = {}
    for i, k in enumerate(sp["circuits"]):
        for e in "ab":
            ends.setdefault(nm[k[e]] if nm else k[e], []).append((i, e))
    out = {}
    for short in sorted(ends):
        for long in sorted(ends):
            for sep in ("-", "_", ":", " ", ",", "/", "->", "-to-", ".", ""):
                if long == short:
                    break
                a, b = rng.choice(ends[short]), rng.choice(ends[long])
                new = "if%d" % len(out)
                if a in out or b in out:
                    continue
                rest = long[len(short) + len(sep):]
                if rest and long == short + sep + rest:
                    out[a], out[b] = rest + sep + new, new
                    break
                rest = long[:-len(sep + short)]
                if rest and long == rest + sep + short:
                    out[a], out[b] = new + sep + rest, new
                    break
    return out


def collide(rng, sp):
    """Gives interfaces such names."""
    new = colliding_interfaces(rng, sp)
    for (i, e), name in new.items():
        if not any(name == x[f + "n"] and x[f] == sp["circuits"][i][e] for x in sp["circuits"] for f in "ab"):
            sp["circuits"][i][e + "n"] = name
    return bool(new)


def demands(rng, sp, count=None, mode=None, selfloops=True):
    names = [x["name"] for x in sp["nodes"]]
    mode = mode or rng.choice(["clean", "clean", "frac", "odd"])
    count = rng.randint(1, 10) if count is None else count
    pairs = []
    used = set()
    for i in range(count):
        if pairs and rng.random() < 0.25:
            s, d = rng.choice(pairs)
        else:
            if len(names) < 2:
                return
            s, d = rng.sample(names, 2)
            if selfloops and rng.random() < 0.02:
                d = s
        pairs.append((s, d))
        nm = "d%d" % i
        if rng.random() < 0.3:
            nm = rng.choice(["none", "dmd", "x y", "d", "D", rng.choice(WORDS)])
        if (s, d, nm) in used:
            nm = "u%d" % i
        used.add((s, d, nm))
        S.add_demand(sp, s, d, traffic(rng, mode), nm)
    add_twins(rng, sp, "demands")


def lsps(rng, sp, count=None, bwmode=None, metric=0.25, follow=0.75, group=0.5):
    names = [x["name"] for x in sp["nodes"]]
    if len(names) < 2:
        return
    if count is None and rng.random() < 0.06:
        # many parallel LSPs
        count, group, bwmode = rng.randint(8, 20), 0.93, bwmode and rng.choice([bwmode, "small"])
    count = rng.randint(1, 6) if count is None else count
    bwmode = bwmode or rng.choice(["auto", "auto", "mix", "fixed", "small"])
    dp = [(d["s"], d["d"]) for d in sp["demands"] if d["s"] != d["d"]]
    pairs = []
    large = 2 ** rng.choice([53, 60]) if metric and rng.random() < 0.05 else None  # metrics that floats cannot tell apart
    for i in range(count):
        r = rng.random()
        if pairs and r < group:
            s, d = rng.choice(pairs)
        elif dp and rng.random() < follow:
            s, d = rng.choice(dp)
        else:
            s, d = rng.sample(names, 2)
        pairs.append((s, d))
        bw = None
        if bwmode == "fixed" or (bwmode == "mix" and rng.random() < 0.5):
            bw = rng.choice([0, 30, 60, 60, 120, 15.5, 30, 60, 60, 120, 10**7])
        elif bwmode == "small":
            bw = rng.choice([0, 1, 2.5])
        m = None
        if rng.random() < metric:
            m = rng.choice([1, 2, 5, 10, 10, 20, 50])
        if large and rng.random() < 0.85:
            m = large + rng.randint(0, 3)
        nm = "lsp%d" % i if rng.random() < 0.9 else rng.choice(["l%d name" % i, "LSP%d" % (i - 1), rng.choice(WORDS)])
        if any((x["s"], x["d"], x["n"]) == (s, d, nm) for x in sp["lsps"]):
            nm = "lsp%d once more" % i
        if sp["lsps"] and rng.random() < 0.15:
            nm = rng.choice(sp["lsps"])["n"]
            if any((x["s"], x["d"], x["n"]) == (s, d, nm) for x in sp["lsps"]):
                nm = "lsp%d again" % i
        S.add_lsp(sp, s, d, nm, bw, m)
    add_twins(rng, sp, "lsps")


def shortcuts(rng, sp, p=0.5):
    for x in sp["nodes"]:
        x["shortcuts"] = rng.random() < p


def failures(rng, sp, p_if=0.15, p_node=0.08):
    for c in sp["circuits"]:
        c["failed"] = rng.random() < p_if
    for x in sp["nodes"]:
        x["failed"] = rng.random() < p_node


def node_route(rng, sp, s, d):
    """One least-cost node path in the description (ignoring failures), or None."""
    import heapq
    adj = {}
    for c in sp["circuits"]:
        adj.setdefault(c["a"], []).append((c["b"], c["ac"]))
        adj.setdefault(c["b"], []).append((c["a"], c["bc"]))
    heap, seen = [(0, rng.random(), s, (s,))], set()
    while heap:
        cost, _, x, path = heapq.heappop(heap)
        if x == d:
            return path
        if x in seen:
            continue
        seen.add(x)
        for y, k in adj.get(x, ()):
            if y not in seen:
                heapq.heappush(heap, (cost + k, rng.random(), y, path + (y,)))
    return None


def on_path_lsps(rng, sp, count=None, bwmode=None, metric=0.3):
    """LSPs between nodes along demands' least-cost paths, shortcuts enabled where many of them start."""
    bwmode = bwmode or rng.choice(["auto", "fixed", "mix"])
    routes = []
    for x in sp["demands"]:
        if x["s"] != x["d"]:
            r = node_route(rng, sp, x["s"], x["d"])
            if r and len(r) > 2:
                routes.append(r)
    if not routes:
        return
    on = {x["name"]: x for x in sp["nodes"]}
    if rng.random() < 0.12:
        # relays: LSPs that follow one another along a path, some of them parallel
        r = rng.choice(routes)
        cuts = sorted(rng.sample(range(1, len(r) - 1), min(len(r) - 2, rng.choice([1, 2, 3, 3, 4]))))
        for a, b in zip([0] + cuts, cuts + [len(r) - 1]):
            if a == 0 and cuts and rng.random() < 0.3:
                continue
            on[r[a]]["shortcuts"] = rng.random() < 0.93
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                S.add_lsp(sp, r[a], r[b], "rl%d" % len(sp["lsps"]), rng.choice([None, 0, 5]), None if rng.random() < 0.8 else rng.choice([1, 5, 20]))
        return
    pairs = []
    again = 0.3
    if count is None and rng.random() < 0.06:
        count, again, bwmode = rng.randint(9, 20), 0.95, rng.choice(["auto", "fixed"])
    for i in range(count or rng.randint(1, 6)):
        r = rng.choice(routes)
        if pairs and rng.random() < again:
            a, b = rng.choice(pairs)
        else:
            i0 = rng.randrange(len(r) - 1)
            j0 = rng.randrange(i0 + 1, len(r))
            if i0 == 0 and j0 == len(r) - 1 and rng.random() < 0.8:
                j0 -= 1
            a, b = r[i0], r[j0]
        pairs.append((a, b))
        if rng.random() < 0.8:
            on[a]["shortcuts"] = True
        bw = rng.choice([0, 5, 30, 60]) if bwmode == "fixed" or (bwmode == "mix" and rng.random() < 0.5) else None
        m = rng.choice([1, 2, 5, 10, 20, 50]) if rng.random() < metric else None
        S.add_lsp(sp, a, b, "sc%d" % i, bw, m)


def contention(rng, sp):
    """Groups of LSPs of which usually only some fit."""
    cap = rng.choice([100, 120, 240, 1000])
    for c in sp["circuits"]:
        c["cap"] = cap * rng.choice([1, 1, 1, 2])
    names = [x["name"] for x in sp["nodes"]]
    deg = {n: 0 for n in names}
    for c in sp["circuits"]:
        deg[c["a"]] += 1
        deg[c["b"]] += 1
    far = [n for n in names if deg[n] >= 2] or names
    if len(names) < 2:
        return
    for g in range(rng.choice([1, 1, 2])):
        s = rng.choice(far)
        d = rng.choice([x for x in names if x != s])
        k = rng.randint(2, 5)
        u = rng.choice([0.34, 0.4, 0.45, 0.5, 0.52, 0.55, 0.6, 0.7, 0.8, 0.9])
        total = k * u * cap
        parts = rng.randint(1, 3)
        for i in range(parts):
            t = total / parts
            S.add_demand(sp, s, d, int(t) if t == int(t) else round(t, 3), "c%d_%d" % (g, i))
        fixed = rng.random() < 0.3
        for i in range(k):
            bw = None
            if fixed and rng.random() < 0.4:
                bw = rng.choice([u * cap, cap, 0.3 * cap, 10])
            S.add_lsp(sp, s, d, "g%d_%d" % (g, i), bw, rng.choice([None, None, None, 5, 10]))


def extremes(rng, sp, whole=False):
    """A few attributes get values with many digits, or at the ends of what is allowed; used where attributes are
    compared rather than routed over, so that only their exact values matter."""
    n = 0
    for _ in range(rng.randint(1, 3)):
        w = rng.randint(0, 5)
        if w == 0 and sp["circuits"]:
            rng.choice(sp["circuits"])["cap"] = rng.choice([1, 10**13 + 1, 2**53 - 1, 999999999999] + ([] if whole else [0.1, 0.000125, 1234567890.1234567]))
        elif w == 1 and sp["circuits"]:
            rng.choice(sp["circuits"])[rng.choice(["ac", "bc"])] = rng.choice([1, 65535, 16777215, 2**31, 10**12 + 7])
        elif w == 2 and sp["lsps"]:
            rng.choice(sp["lsps"])["m"] = rng.choice([1, 65535, 123456, 16777215, 10**12 + 7])
        elif w == 3 and sp["lsps"]:
            rng.choice(sp["lsps"])["bw"] = rng.choice([0.001, 1234567.891, 0.333333333333, 98765432.1])
        elif w == 4 and sp["demands"]:
            rng.choice(sp["demands"])["t"] = rng.choice([0, 1, 10**10 + 1, 123456789] + ([] if whole else [0.000001, 1234567.8901234]))
        else:
            x = rng.choice(sp["nodes"])
            x[rng.choice(["lat", "lon"])] = rng.choice([0, -1, -180, 123456789, -987654] + ([] if whole else [-0.000012345, 51.47793412345]))
        n += 1
    return n
