"""Generator of programs with process groups and collective communication (spec/GAGroups.tla)."""
import gendata

OPS = {
    "int": ["+", "*", "max", "min", "absmax", "absmin", "or", "&&", "||", "&", "|", "land", "lor", "band", "bor"],
    "flt": ["+", "*", "max", "min", "absmax", "absmin"],
    "cpl": ["+"],
}
OPS["long"] = OPS["llong"] = OPS["int"]
OPS["dbl"] = OPS["flt"]
OPS["scpl"] = OPS["dcpl"] = OPS["cpl"]
GS = {"int": [1, 100003], "long": [1, 1 << 33], "llong": [1, 1 << 33], "flt": [1, 64], "dbl": [1, 1 << 30],
      "scpl": [1, 3], "dcpl": [1, 1 << 30]}


class Groups(gendata.DataProgram):
    """world: the members of a script group number, as absolute ranks in order; number -1 is the world"""

    def reset(self):
        self.mem = {-1: list(range(self.np))}
        self.free = list(range(60))
        self.rng.shuffle(self.free)
        self.default = {r: -1 for r in range(self.np)}
        # handles in use (of a split group every member gets handles of all parts, for ever)
        self.leak = getattr(self, "leak", {r: 0 for r in range(self.np)})
        self.used = dict(self.leak)
        self.high = dict(self.leak)
        self.inuse = {}                                # group -> arrays on it
        self.s.note("gworld", np=self.np)

    def more(self, r, n=1):
        self.used[r] += n
        self.high[r] = max(self.high[r], self.used[r])

    def bound(self, members):
        return max(self.high[r] for r in members) + 3

    def make(self, who, spec, nums=None, g=None, **kw):
        kw["api"] = self.rng.choice([0, 1])
        # making a communicator does not serve one-sided operations: nobody may come with one under way
        if len(who) > 1:
            self.meets = getattr(self, "meets", 0) + 1
            self.s.add(who, "meet", None, logs=False, f=self.meets, x=len(who))
        if nums is not None:
            kw["nums"] = spec["nums"] = [nums.get(r, 0) for r in range(self.np)]
        else:
            kw["g"] = spec["g"] = g
        spec["bound"] = self.bound(who)
        self.s.add(who, "gmake", spec, **kw)

    def add_list(self):
        r = self.rng
        d = r.choice(sorted(set(self.default.values())))
        cand = [i for i, x in enumerate(self.mem[d]) if self.default[x] == d]
        if not cand:
            return None
        rel = r.sample(cand, r.randint(1, len(cand)))
        m = [self.mem[d][i] for i in sorted(rel)]
        g = self.free.pop()
        for x in m:
            self.more(x)
        self.make(m, {"how": "list", "list": rel}, g=g, how="list", list=rel)
        self.mem[g] = m
        return g

    def split(self, parent):
        r = self.rng
        m = self.mem[parent]
        k = r.randint(1, len(m) + 1)
        z = -(-len(m) // k)
        runs = [m[i:i + z] for i in range(0, len(m), z)]
        nums = {}
        for x in m:
            self.more(x, len(runs))
            self.leak[x] += len(runs) - 1
        for run in runs:
            g = self.free.pop()
            self.mem[g] = run
            for x in run:
                nums[x] = g
        self.make(m, {"how": "split", "parent": parent, "k": k}, nums=nums, how="split", parent=parent, k=k)

    def irreg(self, parent):
        r = self.rng
        m = self.mem[parent]
        c = [r.choice([0, 1, 2, 7, 1000]) for _ in m]
        nums = {}
        for col in set(c):
            g = self.free.pop()
            self.mem[g] = [x for x, y in zip(m, c) if y == col]
            for x in self.mem[g]:
                nums[x] = g
                self.more(x)
        self.make(m, {"how": "irreg", "parent": parent, "colors": c}, nums=nums, how="irreg", parent=parent, colors=c)

    def dup(self, parent):
        m = self.mem[parent]
        g = self.free.pop()
        for x in m:
            self.more(x)
        self.make(m, {"how": "dup", "parent": parent}, g=g, how="dup", parent=parent)
        self.mem[g] = list(m)
        return g

    def self_(self, r):
        g = self.free.pop()
        self.more(r)
        self.make([r], {"how": "self"}, g=g, how="self")
        self.mem[g] = [r]

    def setdef(self, g, who=None):
        who = who or self.mem[g]
        self.s.add(who, "gdef", {"g": g}, g=g, api=self.rng.choice([0, 1]))
        for x in who:
            self.default[x] = g

    def destroy_group(self, g):
        m = self.mem.pop(g)
        for x in m:
            self.used[x] -= 1
        self.s.add(m, "gfree", {"g": g}, g=g, api=self.rng.choice([0, 1]))
        self.free.insert(0, g)

    def ask(self, r):
        gs = [g for g in self.mem if r in self.mem[g]]
        g = self.rng.choice(gs)
        self.s.add([r], "gask", {"g": g}, g=g, api=self.rng.choice([0, 1]))

    def where(self, g):
        """words that address group g: explicitly, or as the default of all its members"""
        m = self.mem[g]
        if all(self.default[x] == g for x in m) and (g == -1 or self.rng.random() < 0.6):
            if g == -1 and self.rng.random() < 0.3:
                return {"grp": -1, "explicit": 1}
            return {"grp": g}
        return {"grp": g, "explicit": 1} if g != -1 else None

    def gop(self, g, maxn=40, big=None):
        r = self.rng
        w = self.where(g)
        if w is None:
            return
        m = self.mem[g]
        t = r.choice(gendata.TYPES)
        o = r.choice(OPS[t])
        n = r.choice([1, 1, 2, 3, 5, 17, r.randint(1, maxn)] + (big or []))
        k = min(n, r.choice([1, 2, 3, 8, 13]))
        S = 1 if o not in ("+", "max", "min", "absmax", "absmin") else r.choice(GS[t])
        if o == "*":
            lim = max(2, int(1500000000 ** (1.0 / len(m)))) if t not in ("flt", "scpl") else max(2, int((1 << 24) ** (1.0 / len(m))))
            lim = min(lim, 40)
            x = [r.choice([-1, 1]) * r.randint(1, lim) for _ in range(k * len(m))]
            if r.random() < 0.2:
                x[r.randrange(len(x))] = 0
        elif o in ("&&", "||", "land", "lor"):
            x = [r.choice([0, 0, 1, 5, -3]) if o in ("||", "lor") else r.choice([0, 1, 1, 2, -4]) for _ in range(k * len(m))]
            if len(m) == 1:
                x = [0 if y == 0 else 1 for y in x]
        elif o in ("or", "|", "&", "bor", "band"):
            x = [r.choice([0, r.randrange(1 << 16), (1 << 30) - 1, 1 << r.randrange(30)]) for _ in range(k * len(m))]
        else:
            x = [r.randint(-900, 900) for _ in range(k * len(m))]
        kw = {"t": t, "o": o, "k": k, "n": n, "S": S, "S2": 7 if t == "dcpl" else 5, "list": m, "x": x, "api": r.choice([0, 0, 1, 2]), **w}
        if r.random() < 0.2:
            kw["us"] = r.choice([10, 200, 1500])
        self.s.add(m, "gop", {"o": o, "k": k, "x": x}, **kw)

    def bcast(self, g, big=None):
        r = self.rng
        w = self.where(g)
        if w is None:
            return
        m = self.mem[g]
        n = r.choice([1, 2, 7, 8, 64, 1000] + (big or []))
        k = min(n, r.choice([1, 2, 5, 13]))
        x = [r.randrange(256) for _ in range(k)]
        root = r.randrange(len(m))
        kw = {"n": n, "x": x, "root": root, "rootabs": m[root], **w}
        if r.random() < 0.2:
            kw["us"] = r.choice([10, 200, 1500])
        self.s.add(m, "bcast", {"x": x}, **kw)

    def sync(self, arr=None):
        g = arr.grp if arr is not None and arr.grp is not None else -1
        if g == -1:
            self.s.add("*", "sync")
        elif all(self.default[x] == g for x in self.mem[g]) and self.rng.random() < 0.3:
            self.s.add(self.mem[g], "sync")
        else:
            self.s.add(self.mem[g], "gsync", grp=g)

    def array(self, num, g, **kw):
        """a new array on group g, named or as the default"""
        m = self.mem[g]
        x = gendata.new_array(self.rng, num, self.np, grp=None if g == -1 else g, members=None if g == -1 else m, **kw)
        if g != -1 and all(self.default[y] == g for y in m) and self.rng.random() < 0.7:
            x.kw.pop("grp")
        self.create(x)
        return x

    def home(self):
        """all defaults back to the world"""
        for g in sorted(set(self.default.values())):
            if g != -1:
                self.setdef(-1, [r for r in self.mem[-1] if self.default[r] == g])

    def cleanup(self):
        self.home()
        for g in sorted([g for g in self.mem if g != -1], reverse=True):
            self.destroy_group(g)
        self.s.add("*", "sync", None, logs=False)
