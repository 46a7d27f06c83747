"""Independent reference for routing: own Dijkstra, exact (Fraction) ECMP flows, constrained
shortest paths and RSVP signaling. Shares nothing with the code under test (no networkx)."""
import heapq
from fractions import Fraction as Fr


def fr(x):
    return Fr(str(x)) if isinstance(x, float) else Fr(x)


class TooMany(Exception):
    pass


class Net(object):
    def __init__(self, obs):
        self.obs = obs
        self.nodes = set(obs.nodes)
        self.remote = {k: v["remote"] for k, v in obs.ifaces.items()}
        self.cost = {k: v["cost"] for k, v in obs.ifaces.items()}
        self.all = sorted(obs.ifaces)
        self.up = [k for k in self.all if v_up(obs, k)]
        self.budget = {
            k: fr(v["cap"]) * fr(v["pct"]) / 100 for k, v in obs.ifaces.items()
        }
        self.rsvp = [k for k in self.up if obs.ifaces[k]["rsvp"] is True]
        self._dist = {}

    def dist_to(self, dst, usable=None):
        cache = usable is None
        if cache and dst in self._dist:
            return self._dist[dst]
        use = self.up if usable is None else usable
        into = {}
        for k in use:
            into.setdefault(self.remote[k], []).append(k)
        d = {dst: 0}
        h = [(0, dst)]
        while h:
            c, u = heapq.heappop(h)
            if c > d[u]:
                continue
            for k in into.get(u, ()):
                w = c + self.cost[k]
                if k[0] not in d or w < d[k[0]]:
                    d[k[0]] = w
                    heapq.heappush(h, (w, k[0]))
        if cache:
            self._dist[dst] = d
        return d

    def next_hops(self, dst, usable=None):
        d = self.dist_to(dst, usable)
        nh = {}
        for k in (self.up if usable is None else usable):
            r = self.remote[k]
            if r in d and k[0] in d and k[0] != dst and d[k[0]] == d[r] + self.cost[k]:
                nh.setdefault(k[0], []).append(k)
        return nh

    def sp_cost(self, src, dst, usable=None):
        return self.dist_to(dst, usable).get(src)

    def sp_paths(self, src, dst, usable=None, limit=600):
        """All least-cost interface paths, as tuples of interface keys."""
        d = self.dist_to(dst, usable)
        if src not in d or src not in self.nodes:
            return []
        nh = self.next_hops(dst, usable)
        out = []
        st = [(src, ())]
        while st:
            u, p = st.pop()
            if u == dst:
                out.append(p)
                if len(out) > limit:
                    raise TooMany()
                continue
            for k in nh.get(u, ()):
                st.append((self.remote[k], p + (k,)))
        return out

    def count_paths(self, src, dst):
        d = self.dist_to(dst)
        if src not in d:
            return 0
        nh = self.next_hops(dst)
        memo = {dst: 1}

        def cnt(u):
            if u not in memo:
                memo[u] = sum(cnt(self.remote[k]) for k in nh.get(u, ()))
            return memo[u]

        return cnt(src)

    def flow(self, src, dst, traffic):
        """Hop-by-hop ECMP: exact flow per interface."""
        d = self.dist_to(dst)
        if src not in d:
            return None
        nh = self.next_hops(dst)
        at = {src: Fr(traffic)}
        out = {}
        for u in sorted((x for x in d if x in nh), key=lambda x: -d[x]):
            if u not in at:
                continue
            share = at[u] / len(nh[u])
            for k in nh[u]:
                out[k] = out.get(k, 0) + share
                r = self.remote[k]
                at[r] = at.get(r, 0) + share
        return out

    def simple_paths(self, src, dst, cutoff, usable, limit=4000):
        adj = {}
        for k in usable:
            adj.setdefault(k[0], []).append(k)
        out = []

        def rec(u, seen, p):
            if len(p) >= cutoff:
                return
            for k in adj.get(u, ()):
                r = self.remote[k]
                if r in seen:
                    continue
                if r == dst:
                    out.append(p + (k,))
                    if len(out) > limit:
                        raise TooMany()
                else:
                    rec(r, seen | {r}, p + (k,))

        rec(src, {src}, ())
        return out


def v_up(obs, k):
    v = obs.ifaces[k]
    return not v["failed"]


# --- RSVP --------------------------------------------------------------------------------------

class Outcome(object):
    """verdict: 'ok' (a signaling order and tie-break explains the observation), 'bad' (none does,
    search complete), 'unknown' (budget exhausted)."""

    def __init__(self, verdict, why="", resignaled=0, ties=0, steps=0):
        self.verdict, self.why, self.resignaled, self.ties, self.steps = verdict, why, resignaled, ties, steps


class Rsvp(object):
    TOL = Fr(1, 10**6)

    def __init__(self, net, obs, budget=4000):
        self.net, self.obs = net, obs
        self.steps = 0
        self.budget = budget
        self.groups = {}
        for k in obs.lsps:
            self.groups.setdefault((k[0], k[1]), []).append(k)
        self.total = {}
        for k, v in obs.demands.items():
            g = (k[0], k[1])
            self.total[g] = self.total.get(g, Fr(0)) + fr(v["t"])
        self.deepest = ""
        self.deep = -1

    def share(self, g):
        return self.total.get(g, Fr(0)) / len(self.groups[g])

    def ask(self, k):
        c = self.obs.lsps[k]["conf"]
        return self.share((k[0], k[1])) if c is None else fr(c)

    def feasible(self, res, bw, credit=()):
        own, amount = credit if credit else ((), Fr(0))
        own = set(own)
        tol = max(self.TOL, bw / 10**9)
        return [
            i for i in self.net.rsvp
            if self.net.budget[i] - res.get(i, 0) + (amount if i in own else 0) >= bw - tol
        ]

    def avail(self, path, res, own=(), amount=Fr(0)):
        own = set(own)
        return min(self.net.budget[i] - res.get(i, 0) + (amount if i in own else 0) for i in path)

    def close(self, a, b, tol=1e-6):
        return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))

    def note(self, depth, msg):
        if depth > self.deep:
            self.deep, self.deepest = depth, msg

    def solve(self, hint=None):
        order = []
        if hint:
            for g, ls in hint:
                if g in self.groups and sorted(ls) == sorted(self.groups[g]):
                    order.append((g, list(ls)))
        if len(order) == len(self.groups):
            r = self._run_order(order)
            if r is not None:
                return r
            if self.steps > self.budget:
                return Outcome("unknown", self.deepest, steps=self.steps)
        try:
            r = self._dfs(frozenset(), {}, 0, 0, 0)
        except TooMany:
            return Outcome("unknown", self.deepest, steps=self.steps)
        if r is not None:
            return r
        return Outcome("bad", self.deepest, steps=self.steps)

    def _tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise TooMany()

    def _run_order(self, order):
        try:
            return self._groups_in_order(order, 0, {}, 0, 0)
        except TooMany:
            return None

    def _groups_in_order(self, order, i, res, nres, ties):
        if i == len(order):
            return Outcome("ok", resignaled=nres, ties=ties, steps=self.steps)
        g, ls = order[i]
        for out in self._group(g, [ls], res, i):
            r = self._groups_in_order(order, i + 1, out[0], nres + out[1], ties + out[2])
            if r is not None:
                return r
        return None

    def _dfs(self, done, res, depth, nres, ties):
        if len(done) == len(self.groups):
            return Outcome("ok", resignaled=nres, ties=ties, steps=self.steps)
        for g in sorted(self.groups):
            if g in done:
                continue
            for out in self._group(g, None, res, depth):
                r = self._dfs(done | {g}, out[0], depth + 1, nres + out[1], ties + out[2])
                if r is not None:
                    return r
        return None

    def _group(self, g, orders, res, depth):
        """Yields (reservations, resignaled count, ties) for every way of signaling group g that
        ends in the observed state of its LSPs."""
        import itertools

        ls = self.groups[g]
        routed_obs = [k for k in ls if self.obs.lsps[k]["path"] is not None]
        partial = 0 < len(routed_obs) < len(ls)
        for order in (orders if orders is not None else itertools.permutations(sorted(ls))):
            for out in self._setup(g, list(order), 0, dict(res), {}, partial, depth, 0):
                yield out

    def _setup(self, g, order, j, res, cur, partial, depth, ties):
        self._tick()
        if j == len(order):
            if partial:
                target = self.total.get(g, Fr(0)) / len(cur)
                todo = [k for k in order if k in cur and self.obs.lsps[k]["conf"] is None]
                for out in self._resignal(g, todo, 0, res, cur, target, depth, 0, ties):
                    yield out
            else:
                yield (res, 0, ties)
            return
        k = order[j]
        o = self.obs.lsps[k]
        bw = self.ask(k)
        use = self.feasible(res, bw)
        paths = self.net.sp_paths(k[0], k[1], use)
        if not paths:
            if o["path"] is not None:
                self.note(depth * 100 + j, "LSP %s is routed but no path had its bandwidth %s" % (k, float(bw)))
                return
            if not self.close(o["setup"], bw):
                self.note(depth * 100 + j, "unrouted LSP %s asked for %s, expected %s" % (k, o["setup"], float(bw)))
                return
            for out in self._setup(g, order, j + 1, res, cur, partial, depth, ties):
                yield out
            return
        if o["path"] is None:
            self.note(depth * 100 + j, "LSP %s is unrouted but %s was available with bandwidth %s" % (k, paths[0], float(bw)))
            return
        fewest = min(len(p) for p in paths)
        cands = [p for p in paths if len(p) == fewest]
        free = partial and o["conf"] is None
        if not free:
            mine = tuple(o["path"])
            if mine not in cands:
                self.note(depth * 100 + j, "LSP %s takes %s; least-cost fewest-hop paths with %s available: %s" % (k, mine, float(bw), cands[:4]))
                return
            if not (self.close(o["reserved"], bw) and self.close(o["setup"], bw)):
                self.note(depth * 100 + j, "LSP %s reserves %s (setup %s), expected %s" % (k, o["reserved"], o["setup"], float(bw)))
                return
            head = self.avail(mine, res)
            if abs(float(head) - float(o["headroom"])) > 0.101:
                self.note(depth * 100 + j, "LSP %s records headroom %s, was %s" % (k, o["headroom"], float(head)))
                return
            cands2 = [mine]
        else:
            # try the path it was last seen on first
            mine = tuple(o["path"])
            cands2 = sorted(cands, key=lambda p: (p != mine, p))
        for p in cands2:
            r2 = dict(res)
            for i in p:
                r2[i] = r2.get(i, 0) + bw
            c2 = dict(cur)
            c2[k] = (p, bw)
            for out in self._setup(g, order, j + 1, r2, c2, partial, depth, ties + (len(cands) > 1)):
                yield out

    def _resignal(self, g, todo, j, res, cur, target, depth, nres, ties):
        self._tick()
        if j == len(todo):
            yield (res, nres, ties)
            return
        k = todo[j]
        o = self.obs.lsps[k]
        p0, b0 = cur[k]
        use = self.feasible(res, target, (p0, b0))
        paths = self.net.sp_paths(k[0], k[1], use)
        mine = tuple(o["path"])
        lvl = depth * 100 + 50 + j
        if not paths:
            if mine != p0:
                self.note(lvl, "LSP %s could not move to %s yet takes %s" % (k, float(target), mine))
                return
            if not (self.close(o["reserved"], b0) and self.close(o["setup"], b0)):
                self.note(lvl, "LSP %s reserves %s (setup %s), expected its first share %s" % (k, o["reserved"], o["setup"], float(b0)))
                return
            for out in self._resignal(g, todo, j + 1, res, cur, target, depth, nres, ties):
                yield out
            return
        if mine not in paths:
            self.note(lvl, "LSP %s takes %s; least-cost paths for its larger share %s: %s" % (k, mine, float(target), paths[:4]))
            return
        if not (self.close(o["reserved"], target) and self.close(o["setup"], target)):
            self.note(lvl, "LSP %s reserves %s (setup %s), expected the larger share %s" % (k, o["reserved"], o["setup"], float(target)))
            return
        head = self.avail(mine, res, p0, b0)
        if abs(float(head) - float(o["headroom"])) > 0.101:
            self.note(lvl, "LSP %s records headroom %s, was %s" % (k, o["headroom"], float(head)))
            return
        r2 = dict(res)
        for i in p0:
            r2[i] -= b0
        for i in mine:
            r2[i] = r2.get(i, 0) + target
        for out in self._resignal(g, todo, j + 1, r2, cur, target, depth, nres + 1, ties):
            yield out


# --- demand steering ---------------------------------------------------------------------------

def effective_metric(net, obs, k):
    m = obs.lsps[k]["manual"]
    if m != "not set":
        return m
    return net.sp_cost(k[0], k[1])


def best_lsps(net, obs, s, d, groups):
    ls = [k for k in groups.get((s, d), ()) if obs.lsps[k]["path"] is not None]
    if not ls:
        return []
    mets = {k: effective_metric(net, obs, k) for k in ls}
    m = min(mets.values())
    return sorted(k for k in ls if mets[k] == m)


def group_lsps(obs):
    g = {}
    for k in obs.lsps:
        g.setdefault((k[0], k[1]), []).append(k)
    return g


class Expect(object):
    """Expected treatment of one demand: how ('unrouted','lsp','igp','shortcut','local'), paths
    (set of item tuples) or None if too many, weight per item and per path (Fractions of 1)."""


def expect_demand(net, obs, dk, groups, shortcuts, path_limit=400):
    e = Expect()
    s, d = dk[0], dk[1]
    e.paths, e.share, e.item = None, None, {}
    best = best_lsps(net, obs, s, d, groups)
    if best:
        e.how = "lsp"
        e.paths = [(("L",) + k,) for k in best]
        e.share = {p: Fr(1, len(best)) for p in e.paths}
        e.item = {p[0]: Fr(1, len(best)) for p in e.paths}
        e.splits = {p: [len(best)] for p in e.paths}
        return e
    if s == d:
        e.how = "local"
        e.paths = [()]
        e.share = {(): Fr(1)}
        e.splits = {(): []}
        return e
    if net.sp_cost(s, d) is None:
        e.how = "unrouted"
        return e
    n = net.count_paths(s, d)
    if n > path_limit:
        e.how = "igp-large"
        e.flow = net.flow(s, d, 1)
        e.nodes_on = None
        if shortcuts and any(v["shortcuts"] for v in obs.nodes.values()):
            e.how = "too-large"
            e.flow = None
        else:
            e.item = {("I",) + k: f for k, f in e.flow.items()}
        return e
    paths = [tuple(("I",) + k for k in p) for p in net.sp_paths(s, d, limit=path_limit + 1)]
    e.how = "igp"
    if shortcuts:
        onpath = set()
        for p in paths:
            for x in p:
                onpath.add(x[1])
                onpath.add(net.remote[x[1:]])
        if any(obs.nodes[u]["shortcuts"] for u in onpath):
            new = set()
            used = False
            for p in paths:
                for q in insert_shortcuts(net, obs, p, groups):
                    new.add(q)
                    used = used or any(x[0] == "L" for x in q)
            if len(new) > 1:
                met = {q: sum(net.cost[x[1:]] if x[0] == "I" else effective_metric(net, obs, x[1:]) for x in q) for q in new}
                m = min(met.values())
                kept = {q for q in new if met[q] == m}
            else:
                kept = new
            if kept != set(paths):
                e.how = "shortcut"
            elif used:
                e.how = "shortcut"
            paths = sorted(kept)
    e.paths = paths
    nxt = {}
    for p in paths:
        for i in range(len(p)):
            nxt.setdefault(p[:i], set()).add(p[i])
    e.share, e.splits = {}, {}
    for p in paths:
        c = 1
        sp = []
        for i in range(len(p)):
            c *= len(nxt[p[:i]])
            sp.append(c)
        e.splits[p] = sp
        e.share[p] = Fr(1, c)
        for x in p:
            e.item[x] = e.item.get(x, 0) + Fr(1, c)
    return e


def insert_shortcuts(net, obs, path, groups):
    """One interface path -> item paths after shortcut substitution (several for parallel LSPs)."""
    names = [path[0][1]] + [net.remote[x[1:]] for x in path]
    res = [()]
    i = 0
    while i < len(path):
        u = names[i]
        took = None
        if obs.nodes[u]["shortcuts"]:
            for j in range(len(names) - 1, i, -1):
                b = best_lsps(net, obs, u, names[j], groups)
                if b:
                    took = (j, b)
                    break
        if took:
            res = [r + (("L",) + k,) for r in res for k in took[1]]
            i = took[0]
        else:
            res = [r + (path[i],) for r in res]
            i += 1
    return res


def deterministic(obs):
    """True when LSP signaling has one possible outcome whatever the order and tie-breaks: every
    LSP has one best path in the unreserved network, at its first request and, in a group that is
    routed in part, at its second, and all of them fit together."""
    if not obs.lsps:
        return True
    net = Net(obs)
    r = Rsvp(net, obs)
    use = {}

    def only(k, bw, hops):
        paths = net.sp_paths(k[0], k[1], r.feasible({}, bw), limit=50)
        if paths and hops:
            m = min(len(p) for p in paths)
            paths = [p for p in paths if len(p) == m]
        if len(paths) > 1:
            raise TooMany()
        return paths

    try:
        for g, ls in r.groups.items():
            first = {k: only(k, r.ask(k), True) for k in ls}
            routed = [k for k in ls if first[k]]
            for k in routed:
                need = {i: r.ask(k) for i in first[k][0]}
                if len(routed) < len(ls) and obs.lsps[k]["conf"] is None:
                    bw = r.total.get(g, Fr(0)) / len(routed)
                    for p in only(k, bw, False):
                        for i in p:
                            need[i] = max(bw, need.get(i, bw))
                for i, v in need.items():
                    use[i] = use.get(i, Fr(0)) + v
    except TooMany:
        return False
    return all(net.budget[i] >= v for i, v in use.items())
