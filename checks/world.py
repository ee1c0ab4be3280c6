"""
Interpretations in which the routes of the local search are routes.

engine/randinterp.py withdraws a difference between two value graphs when no
interpretation of their atoms tells them apart.  For moves, arbitrary
interpretations are too many: two ways of writing a move agree only when nodes
know their own position and route, and when insertions and removals act on
lists.  Here the atoms that read routes and nodes are interpreted in a small
drawn fleet, and the terms for Route::insert, remove, push_back, swap and clear
as operations on its lists of nodes.  Nothing of PyVRP runs.
"""
import random

from engine.randinterp import Inconclusive, Model, S, pattern

ROUTE, CLIENT, SHIP = 10000, 500000, 600000
NR, NC, NS = 4, 6, 3
TYPE, AVAILABLE, FIRST = (0, 0, 1, 2), (2, 1, 1), (0, 2, 3)
ACT = "pyvrp::Activity::ActivityType::"
ROUTEQ = "pyvrp::search::Route::"


def isnode(x):
    return isinstance(x, int) and not isinstance(x, bool) and \
        x >= ROUTE and x % ROUTE >= 100 or isinstance(x, int) and x >= CLIENT


def isroute(x):
    return isinstance(x, int) and not isinstance(x, bool) and \
        ROUTE <= x <= ROUTE * NR and x % ROUTE == 0


class Fleet(tuple):
    """((nodes of route 0), ...), each a tuple of addresses; and last those
    routes that were modified since they were last updated."""


class World:
    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.depot = {}
        cs, ss = list(range(NC)), list(range(NS))
        r.shuffle(cs)
        r.shuffle(ss)
        routes = []
        for k in range(NR):
            acts = []
            n = r.choice((0, 1, 2, 3, 4)) if k in (0, 2) else r.choice((0, 0, 1, 2))
            for _ in range(n):
                x = r.random()
                if x < .5 and cs:
                    acts.insert(r.randint(0, len(acts)), CLIENT + cs.pop())
                elif x < .75 and ss:
                    s = SHIP + 2 * ss.pop()
                    at = r.randint(0, len(acts))
                    acts.insert(at, s)
                    # its delivery comes later in the same trip
                    hi = at + 1
                    while hi < len(acts) and acts[hi] != "d":
                        hi += 1
                    acts.insert(r.randint(at + 1, hi), s + 1)
                elif x >= .75:
                    at = r.randint(0, len(acts))
                    open_ = {a for a in acts[:at]
                             if a != "d" and a >= SHIP}
                    if all((a ^ 1) in open_ for a in open_):
                        acts.insert(at, "d")
            base = ROUTE * (k + 1) + 100
            self.depot[base] = r.choice((0, 1))
            self.depot[base + 1] = r.choice((0, 1))
            nd = base + 2
            out = []
            for a in acts:
                if a == "d":
                    self.depot[nd] = r.choice((0, 1, 2))
                    a, nd = nd, nd + 1
                out.append(a)
            routes.append(tuple([base] + out + [base + 1]))
        self.start = Fleet(routes + [()])
        self.seed = seed
        self.nodes = [a for r in routes for a in r]
        self.loose = [CLIENT + c for c in cs] + [SHIP + 2 * s for s in ss]
        self.loose += self.loose[:2]
        order = [a for a in self.nodes if a >= CLIENT and (
            a < SHIP or a % 2 == 0)] + self.loose[:2]
        order = list(dict.fromkeys(order))
        r.shuffle(order)
        self.order = order[:4]
        self.types = [0, 1, 2]
        r.shuffle(self.types)
        self.fresh = 150
        self.where(self.start)

    def where(self, fleet):
        memo = self.__dict__.setdefault("_where", {})
        w = memo.get(fleet)
        if w is None:
            w = memo[fleet] = {a: (ROUTE * (k + 1), i)
                               for k, r in enumerate(fleet[:NR])
                               for i, a in enumerate(r)}
        return w

    def new(self, route, idx):
        self.fresh += 1
        a = route + self.fresh
        self.depot[a] = idx
        return a

    def kind(self, a):
        if a >= SHIP:
            return "DELIVERY" if a % 2 else "PICKUP"
        return "CLIENT" if a >= CLIENT else "DEPOT"

    def idx(self, a):
        if a >= SHIP:
            return (a - SHIP) // 2
        return a - CLIENT if a >= CLIENT else self.depot.get(a, 0)

    def activity(self, a):
        return {"#": "pyvrp::Activity", "idx_": self.idx(a),
                "type_": S(("enum", ACT + self.kind(a)))}

    def neighbours(self, key):
        if not isinstance(key, dict):
            raise Inconclusive("neighbours")
        r = random.Random(f"{self.seed} {key['idx_']} {key['type_']}")
        near = [x for x in self.nodes if x >= CLIENT] + self.loose[:2]
        r.shuffle(near)
        return [self.activity(a) for a in near[:r.choice((0, 1, 2, 2, 3))]
                if self.activity(a) != key]

    def show(self, fleet):
        return tuple(tuple((self.kind(a), self.idx(a)) for a in r)
                     for r in fleet[:NR]) + fleet[NR:]


class WorldModel(Model):
    finite = True
    effort = 300000

    def world(self):
        k = ("world", ("world",))
        self.touched.append(k)
        if k not in self.vals:
            self.vals[k] = self.rnd.randrange(4000)
        ws = self.vn.__dict__.setdefault("_worlds", {})
        w = ws.get(self.vals[k])
        if w is None:
            w = ws[self.vals[k]] = World(self.vals[k])
        return w

    def special(self, k):
        if k[0] == "world":
            self.vals[k] = self.rnd.randrange(4000)
            return True
        if k[0] == "ptr":
            self.vals.pop(k, None)
            return True
        return False

    # ------------------------------------------------------------- pointers
    def rep(self, v):
        c = self.ptrclass(v)
        if c is None:
            return v
        w = self.world()
        k = ("ptr", v)
        self.touched.append(k)
        if k not in self.vals:
            role = getattr(self.vn, "roles", {}).get(tuple(v))
            if role and not [x for x in w.loose if x >= SHIP] and \
                    role != "client" or role == "client" and \
                    not [x for x in w.loose if x < SHIP]:
                raise Inconclusive("nothing left to insert")
            if role in ("pickup", "delivery"):
                self.vals[k] = [x for x in w.loose if x >= SHIP][0] + \
                    (role == "delivery")
            elif role == "client":
                self.vals[k] = [x for x in w.loose if x < SHIP][0]
            elif c == "Route":
                self.vals[k] = ROUTE * self.rnd.randint(1, NR)
            else:
                self.vals[k] = self.rnd.choice(
                    [a for r in w.start[:NR] for a in r[:-1]] +
                    [CLIENT + i for i in range(NC)] +
                    [SHIP + 2 * i for i in range(NS)])
        return self.vals[k]

    def ptrclass(self, v):
        t = tuple(v)
        c = self.vn.ptr_hint.get(t) or self.ptr.get(pattern(t))
        return c if c in ("Node", "Route") else None

    def ev_(self, t, env):
        v = self.ev0(t, env)
        if isinstance(v, S) and v[0] in ("fld", "elem", "arg", "call"):
            return self.rep(v)
        return v

    # ----------------------------------------------------------------- terms
    def ev0(self, t, env):
        k = t[0]
        if k == "hidden":
            return self.world().start
        if k == "fld":
            b = self.ev(t[1], env)
            r = self.field(b, t[2])
            if r is not None:
                return None if r == () else r
        elif k == "elem":
            b = self.ev(t[1], env)
            if isinstance(b, S) and b[0] == "fld":
                n = b[2]
                if n == "clients_":
                    v = Model.ev0(self, t, env)  # of a group: who exists
                    return abs(int(v)) % NC if isinstance(
                        v, (int, float)) else v
                if n in ("clients", "shipments", "routes"):
                    i = int(self.num(self.ev(t[2], env)))
                    if not 0 <= i < 10000:
                        raise Inconclusive("position")
                    return CLIENT + i if n == "clients" else \
                        ROUTE * (i + 1) if n == "routes" else \
                        [SHIP + 2 * i, SHIP + 2 * i + 1]
            if isinstance(b, S) and b[0] == "fld" and b[2] == "neighbours_":
                return self.world().neighbours(self.ev(t[2], env))
        elif k == "size" and t[1][0] == "fld":
            n = t[1][2]
            if n == "routes":
                return NR
            if n == "vehicleTypes_":
                return len(AVAILABLE)
            if n in ("clients_", "shipments_") and t[1][1][-1] in (
                    "data", "data_"):
                return NC if n == "clients_" else NS
        elif k == "after" and t[1].startswith(ROUTEQ):
            return self.move(t, env)
        elif k == "call" and isinstance(t[1], str) and t[1].startswith(
                "pyvrp::search::") and len(t) > 3:
            r = self.read(t, env)
            if r is not None:
                return None if r == () else r
        return Model.ev0(self, t, env)

    def field(self, b, n):
        if isnode(b):
            w = self.world()
            at = w.where(w.start).get(b)
            if n == "activity_":
                return w.activity(b)
            if n == "pos_":
                return at[1] if at else 0
            if n == "route_":
                return at[0] if at else ()
            if n == "trip_":
                return self.trip(w, w.start, b)
        elif isroute(b):
            w = self.world()
            nodes = w.start[b // ROUTE - 1]
            if n == "nodes":
                return list(nodes)
            if n in ("numClients_", "numPickups_", "numDeliveries_"):
                kind = {"C": "CLIENT", "P": "PICKUP", "D": "DELIVERY"}[n[3]]
                out, s = [], 0
                for a in nodes:
                    s += w.kind(a) == kind
                    out.append(s)
                return out
            if n == "depots_":
                ds = [a for a in nodes if a < CLIENT]
                return [ds[0], ds[-1]] + ds[1:-1]
            if n == "vehicleType_":
                return S(("elem", S(("fld", S(("data",)), "vehicleTypes_")),
                          TYPE[b // ROUTE - 1]))
            if n == "data":
                return S(("data",))
        elif isinstance(b, S) and b[0] == "arg" and n in ("data", "data_"):
            return S(("data",))
        elif n == "activityOrder_":
            w = self.world()
            return [w.activity(a) for a in w.order]
        elif n == "vehTypeOrder_":
            return [{"#": "std::pair<unsigned long, unsigned long>",
                     "first": t, "second": FIRST[t]}
                    for t in self.world().types]
        elif n == "numAvailable" and isinstance(b, S) and b[0] == "elem" and \
                isinstance(b[2], int):
            if not 0 <= b[2] < len(AVAILABLE):
                raise Inconclusive("vehicle type")
            return AVAILABLE[b[2]]
        return None

    def trip(self, w, fleet, a):
        at = w.where(fleet).get(a)
        if at is None:
            return 0
        nodes = fleet[at[0] // ROUTE - 1][:at[1] + 1]
        return sum(1 for x in nodes if x < CLIENT) - 1

    def move(self, t, env):
        self.tick()
        fleet = self.ev(t[2], env)
        if not isinstance(fleet, Fleet):
            raise Inconclusive("routes")
        name = t[1].rpartition("::")[2]
        args = [self.ev(x, env) for x in t[3:]]
        w = self.world()
        fl = [list(r) for r in fleet[:NR]]
        stale = set(fleet[NR])

        def after(*touched):
            stale.update(t for t in touched if t)
            return Fleet([*map(tuple, fl), tuple(sorted(stale))])
        if name == "swap":
            a, b = args[-2:]
            if not isnode(a) or not isnode(b):
                raise Inconclusive("swap")
            pa, pb = (w.where(fleet).get(x) for x in (a, b))
            if pa:
                fl[pa[0] // ROUTE - 1][pa[1]] = b
            if pb:
                fl[pb[0] // ROUTE - 1][pb[1]] = a
            return after(*(p[0] for p in (pa, pb) if p))
        if not isroute(args[0]):
            raise Inconclusive(f"{name} of no route")
        r = fl[args[0] // ROUTE - 1]
        if name == "update":
            stale.discard(args[0])
            return after()
        if name == "clear":
            if len(r) > 2:  # else nothing happens, not even an update
                fl[args[0] // ROUTE - 1] = [r[0], r[-1]]
                stale.discard(args[0])
            return after()
        if name == "remove":
            i = int(self.num(args[1]))
            if not 0 < i < len(r) - 1:
                raise Inconclusive("position")
            del r[i]
            return after(args[0])
        a = args[-1]
        if isinstance(a, dict):
            act = a.get("activity_", a)
            a = w.new(args[0], int(self.num(act["idx_"])))
        elif isnode(a) and a < CLIENT:
            a = w.new(args[0], w.idx(a))
        if not isnode(a):
            raise Inconclusive("insert of no node")
        if a in w.where(fleet):
            raise Inconclusive("already in a route")
        i = len(r) - 1 if name == "push_back" else int(self.num(args[1]))
        if not 0 < i < len(r):
            raise Inconclusive("position")
        r.insert(i, a)
        return after(args[0])

    def read(self, t, env):
        fleet = self.ev(t[-1], env)
        if not isinstance(fleet, Fleet):
            return None
        w = self.world()
        name = t[1].rpartition("::")[2]
        args = [self.ev(x, env) for x in t[2:-1]]
        b = args[0]
        if isroute(b):
            nodes = fleet[b // ROUTE - 1]
            if name == "operator[]":
                i = int(self.num(args[1]))
                if not 0 <= i < len(nodes):
                    raise Inconclusive("position")
                return nodes[i]
            if name == "size":
                return len(nodes)
            if name == "numTrips":
                return sum(1 for a in nodes if a < CLIENT) - 1
            return None
        if not isnode(b):
            return None
        at = w.where(fleet).get(b)
        if name == "route":
            return at[0] if at else ()
        if name == "pos":
            return at[1] if at else 0
        if name == "trip":
            return self.trip(w, fleet, b)
        if name in ("p", "n"):
            if at is None:
                raise Inconclusive("neighbour of unplaced")
            nodes, i = fleet[at[0] // ROUTE - 1], at[1] + (
                1 if name == "n" else -1)
            if not 0 <= i < len(nodes):
                raise Inconclusive("position")
            return nodes[i]
        if name in ("isStartDepot", "isEndDepot", "isReloadDepot"):
            if b >= CLIENT or at is None:
                return False
            last = len(fleet[at[0] // ROUTE - 1]) - 1
            return at[1] == 0 if name == "isStartDepot" else \
                at[1] == last if name == "isEndDepot" else 0 < at[1] < last
        return None

    def same(self, a, b):
        if isinstance(a, Fleet) and isinstance(b, Fleet):
            w = self.world()
            return w.show(a) == w.show(b)
        return Model.same(self, a, b)
