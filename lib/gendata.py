"""Generator of Global Arrays programs on the data plane (spec/GAData.tla).

A program is a sequence of phases separated by synchronizations.  Within a phase the operations of
different processes either touch different cells, or are all accumulates, or are all reads, so the
order in which the script lists them is one of the orders the program allows and they all have the
same outcome.
"""
from vlib import Script

TYPES = ["int", "long", "llong", "flt", "dbl", "scpl", "dcpl"]
# scales that use the whole width of the type: (S, S2, bound of |specification value|)
SCALES = {
    "int": [(1, 1), (1009, 1)], "long": [(1, 1), (5000000029, 1)], "llong": [(1, 1), (7000000001, 1)],
    "flt": [(1, 1), (256, 1)], "dbl": [(1, 1), (1048576, 1)],
    "scpl": [(3, 5), (64, 256)], "dcpl": [(3, 5), (1048576, 77)],
}


def prod(x):
    r = 1
    for y in x:
        r *= y
    return r


class Arr:
    def __init__(self, num, **kw):
        self.num = num
        self.__dict__.update(kw)


def rand_dims(rng, nd, maxcells):
    while True:
        d = [rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 11, 13]) if nd > 1 else rng.randint(1, maxcells)
             for _ in range(nd)]
        if prod(d) <= maxcells and (prod(d) > 1 or rng.random() < 0.1):
            return d


def factor_grid(rng, nd, n):
    """random grid of nd numbers with product n"""
    g = [1] * nd
    m, p = n, 2
    while m > 1:
        while m % p == 0:
            g[rng.randrange(nd)] *= p
            m //= p
        p += 1
    return g


def new_array(rng, num, np, types=None, maxcells=96, kinds=None, grp=None, members=None, nd=None,
              expand=None, ghost_ok=True, pos_ok=True, dims=None, typ=None, cx=False):
    """Creates a random array description with the words for the driver."""
    nd = nd or rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5] + ([6, 7] if rng.random() < 0.3 else []))
    if dims:
        nd = len(dims)
    typ = typ or rng.choice(types or TYPES)
    dims = list(dims or rand_dims(rng, nd, maxcells))
    n = len(members) if members else np
    cx = cx and typ in ("scpl", "dcpl")
    if cx:
        expand = None
    S, S2 = rng.choice(SCALES[typ])
    kind = rng.choice(kinds or ["reg", "reg", "reg", "irreg", "bc", "scalapack", "tiled", "tiledirreg",
                                "restricted", "ghost"])
    if grp is not None and kind in ("bc", "scalapack", "tiled", "tiledirreg"):
        kind = "reg"
    if kind == "ghost" and not ghost_ok:
        kind = "reg"
    e = [1] * nd
    if expand:
        budget = expand
        for i in rng.sample(range(nd), nd):
            f = rng.choice([1, 2, 3, 5, 16, 64, 251, 1024])
            if f <= budget:
                e[i] = f
                budget //= f
    cd = [d * f for d, f in zip(dims, e)]
    blk = prod(e)
    pos = 1 if pos_ok and blk > 1 and blk < S and typ not in ("scpl",) else 0
    kw = {"t": typ, "dims": dims, "S": S, "S2": S2}
    if blk > 1:
        kw["e"] = e
        kw["pos"] = pos
    if grp is not None:
        kw["grp"] = grp
    api = rng.choice([0, 0, 1])

    def map_for(limit, gridprod=None):
        nb, left = [], limit
        for i in range(nd):
            k = rng.randint(1, max(1, min(cd[i], left, 6)))
            nb.append(k)
            if gridprod is None:
                left //= k
        mp = []
        for i in range(nd):
            st = [0] + sorted(rng.sample(range(1, cd[i]), nb[i] - 1)) if cd[i] > 1 else [0]
            mp += st[:nb[i]]
        return nb, mp

    ghost = None
    if kind == "reg":
        if rng.random() < 0.5:
            kw["chunk"] = [rng.choice([-1, -1, 1, 2, 3, d]) for d in cd]
        if rng.random() < 0.3:
            api = 4
    elif kind == "ghost":
        # every process must own a block at least as wide as its ghost cells
        g = [1] * nd
        m, p2 = n, 2
        while m > 1:
            while m % p2 == 0:
                ok = [i for i in range(nd) if g[i] * p2 <= cd[i]]
                if not ok:
                    return new_array(rng, num, np, types, maxcells, ["reg"], grp, members, nd, expand, dims=dims, typ=typ, cx=cx)
                g[rng.choice(ok)] *= p2
                m //= p2
            p2 += 1
        ghost, mp = [], []
        for i in range(nd):
            st = [0] + sorted(rng.sample(range(1, cd[i]), g[i] - 1))
            mn = min(b - a for a, b in zip(st, st[1:] + [cd[i]]))
            ghost.append(rng.randint(0, min(2, mn)))
            mp += st
        kw["ghost"] = ghost
        kw["nblock"], kw["map"] = g, mp
        if rng.random() < 0.4:
            api = 4
    elif kind == "irreg":
        kw["nblock"], kw["map"] = map_for(n)
        if rng.random() < 0.3:
            api = 4
    elif kind == "bc":
        kw["block"] = [rng.randint(1, max(1, min(d, 5 * f))) for d, f in zip(cd, e)]
    elif kind in ("scalapack", "tiled"):
        kw["block"] = [rng.randint(1, max(1, min(d, 5 * f))) for d, f in zip(cd, e)]
        kw["grid"] = factor_grid(rng, nd, n)
    elif kind == "tiledirreg":
        kw["grid"] = factor_grid(rng, nd, n)
        nb, mp = map_for(6 ** nd, gridprod=1)
        kw["nblock"], kw["map"] = nb, mp
    elif kind == "restricted":
        k = rng.randint(1, n)
        if rng.random() < 0.5:
            a = rng.randint(0, n - k)
            kw["restrict"] = list(range(a, a + k))
            kw["range"] = 1
        else:
            kw["restrict"] = rng.sample(range(n), k)
        if rng.random() < 0.5:
            kw["chunk"] = [rng.choice([-1, 1, 2]) for d in cd]
    kw["kind"] = kind
    kw["api"] = api
    if cx:
        kw["cx"] = 1
        kw["S"], kw["S2"] = rng.choice([1, 5] if typ == "scpl" else [1, 1000003]), 1
    return Arr(num, cx=cx, dims=dims, nd=nd, typ=typ, kind=kind, e=e, blk=blk, kw=kw, members=members, grp=grp,
               size=prod(dims), ghost=ghost, cap=12000 if typ in ("flt", "scpl") else 100000)


def cxspec(arr, sp):
    """the specification's view of a complex array: one more dimension of two (re, im)"""
    if not arr.cx:
        return sp
    sp = dict(sp)
    for k, x in (("lo", 0), ("hi", 1), ("skip", 1), ("dims", 2)):
        if k in sp:
            sp[k] = list(sp[k]) + [x]
    if "s" in sp:
        n, out = arr.nd, []
        for i in range(0, len(sp["s"]), n):
            out += sp["s"][i:i + n] + [0] + sp["s"][i:i + n] + [1]
        sp["s"] = out
    return sp


class DataProgram:
    """Writes cases into a Script."""

    def __init__(self, rng, np, ops=None, apis=True, types=None, periodic_over=True):
        self.rng, self.np = rng, np
        self.s = Script()
        self.ops = ops or {}
        self.nh = {}
        self.count = {}
        self.types = types

    # -- single operations ---------------------------------------------------
    def vals(self, n, small=False, arr=None):
        r = self.rng
        if arr is not None and arr.cx:
            n *= 2
        m = 9 if small else 900
        return [r.randint(-m, m) for _ in range(n)]

    def box(self, dims, within=None):
        """random section, inside `within` (list of (lo,hi) per dimension) if given"""
        lo, hi = [], []
        for i, d in enumerate(dims):
            a, b = within[i] if within else (0, d - 1)
            x, y = sorted((self.rng.randint(a, b), self.rng.randint(a, b)))
            if self.rng.random() < 0.25:
                x, y = a, b
            lo.append(x)
            hi.append(y)
        return lo, hi

    def pad(self, nd):
        r = self.rng
        return [0] + [r.choice([0, 0, 1, 2, 3]) for _ in range(nd - 1)] if r.random() < 0.6 else None

    def op(self, rank, arr, kind, within=None, alpha=None, rep=None):
        """Adds one operation by rank; within restricts the cells (a box)."""
        r, s = self.rng, self.s
        self.count[kind] = self.count.get(kind, 0) + 1
        dims, nd = arr.dims, arr.nd
        api = r.choice([0, 0, 1, 2])
        if nd == 2 and kind in ("put", "get", "acc") and r.random() < 0.2:
            api = 3
        isacc = kind in ("acc", "sacc", "pacc", "scatacc", "nbacc")
        isget = kind in ("get", "sget", "pget", "gather", "nbget")
        kw = {"a": arr.num, "api": api}
        if isacc:
            kw["alpha"] = alpha if alpha is not None else r.choice([1, 1, 2, -1, 3, 0, -2])
            if arr.cx:
                kw["alpha"] = [kw["alpha"], r.choice([0, 1, -1, 2])]
            if rep:
                kw["rep"] = rep
        sp = {"a": arr.num}
        if "alpha" in kw:
            x = rep or 1
            sp["calpha" if arr.cx else "alpha"] = [y * x for y in kw["alpha"]] if arr.cx else kw["alpha"] * x
        if kind in ("gather", "scatter", "scatacc"):
            n = r.choice([1, 2, 3, 5, 8, 13, 21, 34])
            box = within or [(0, d - 1) for d in dims]
            pts = []
            for _ in range(n):
                pts.append(tuple(r.randint(a, b) for a, b in box))
            if kind == "scatter":
                pts = list(dict.fromkeys(pts))
                r.shuffle(pts)
            flat = [x for p in pts for x in p]
            kw["s"] = flat
            kw["api"] = r.choice([0, 1, 2, 3, 6, 4, 5] + ([7, 7] if nd == 2 else []))
            sp["s"] = flat
            if not isget:
                kw["v"] = sp["v"] = self.vals(len(pts), isacc, arr)
            s.add([rank], kind, cxspec(arr, sp), **kw)
            return
        if kind in ("pput", "pget", "pacc"):
            lo, hi = [], []
            for i, d in enumerate(dims):
                # for a put the section may not wrap onto itself
                if within and within[i] != (0, d - 1):
                    a, b = within[i]
                    x, y = sorted((r.randint(a, b), r.randint(a, b)))
                    sh = d * r.choice([0, 1, -1, 2, -2, 3, -3]) if r.random() < 0.6 else 0
                    lo.append(x + sh)
                    hi.append(y + sh)
                else:
                    n = r.randint(1, d)
                    if kind == "pget" and n <= 4:
                        n = r.randint(1, 2 * d)   # a section may be as long as the array twice
                    x = r.randint(-3 * d, 3 * d) if r.random() < 0.4 else r.randint(-d, d)
                    lo.append(x)
                    hi.append(x + n - 1)
        elif kind in ("sput", "sget", "sacc"):
            lo, hi = self.box(dims, within)
            kw["skip"] = sp["skip"] = [r.choice([1, 1, 2, 3, 4]) for _ in dims]
        else:
            lo, hi = self.box(dims, within)
        kw["lo"], kw["hi"] = lo, hi
        sp["lo"], sp["hi"] = lo, hi
        n = prod([(h - l) // k + 1 for l, h, k in zip(lo, hi, kw.get("skip", [1] * nd))])
        p = self.pad(nd)
        if p:
            kw["pad"] = p
        if not isget:
            kw["v"] = sp["v"] = self.vals(n, isacc, arr)
        if kind.startswith("nb"):
            h = self.nh.get(rank, 0)
            self.nh[rank] = h + 1
            kw["h"] = sp["h"] = h
            s.add([rank], kind, cxspec(arr, sp), logs=False, **kw)
            return h
        s.add([rank], kind, cxspec(arr, sp), **kw)

    def wait(self, rank, h):
        r = self.rng
        self.s.add([rank], "nbtest" if r.random() < 0.25 else "nbwait", {"h": h}, h=h, api=r.choice([0, 0, 2]))

    def sync(self, arr=None):
        if arr is not None and arr.grp is not None:
            self.s.add(arr.members, "gsync", grp=arr.grp)
        else:
            self.s.add("*", "sync")

    # -- cases ----------------------------------------------------------------
    def ranks(self, arr):
        return arr.members if arr.members else list(range(self.np))

    def create(self, arr, x=0):
        who = arr.members if arr.members else "*"
        self.s.add(who, "create", cxspec(arr, {"a": arr.num, "dims": arr.dims, "x": 0}), logs=False, a=arr.num, **arr.kw)
        self.s.add(who, "zero", {"a": arr.num, "x": 0}, logs=False, a=arr.num)
        self.init(arr)

    def init(self, arr):
        """known distinct contents: one process puts all"""
        r = self.rng
        k = r.choice(self.ranks(arr))
        v = [i + 1 for i in range(arr.size * (2 if arr.cx else 1))]
        r.shuffle(v)
        if r.random() < 0.3:
            v = [r.randint(-999, 999) for _ in v]
        lo, hi = [0] * arr.nd, [d - 1 for d in arr.dims]
        self.s.add([k], "put", cxspec(arr, {"a": arr.num, "lo": lo, "hi": hi, "v": v}), a=arr.num, lo=lo, hi=hi, v=v)
        self.sync(arr)

    def slabs(self, arr, k):
        """splits the array into at most k boxes along its longest dimension"""
        d = max(range(arr.nd), key=lambda i: arr.dims[i])
        n = arr.dims[d]
        k = min(k, n)
        cuts = sorted(self.rng.sample(range(1, n), k - 1)) if k > 1 else []
        out = []
        for a, b in zip([0] + cuts, cuts + [n]):
            box = [(0, x - 1) for x in arr.dims]
            box[d] = (a, b - 1)
            out.append(box)
        return out

    def phase(self, arrs, mode, nops):
        r = self.rng
        for arr in arrs:
            ranks = self.ranks(arr)
            stores = ["put", "put", "sput", "pput", "scatter"]
            loads = ["get", "get", "sget", "pget", "gather"]
            accs = ["acc", "acc", "sacc", "pacc", "scatacc"]
            if arr.blk > 1:
                stores = [x for x in stores if x not in ("sput", "pput")]
                loads = [x for x in loads if x not in ("sget", "pget")]
                accs = [x for x in accs if x not in ("sacc", "pacc")]
            if arr.typ == "llong":   # accumulation is not defined for this type
                accs = []
                if mode in ("accall", "nbaccall"):
                    mode = "single"
            if mode == "single":
                k = r.choice(ranks)
                for _ in range(nops):
                    self.op(k, arr, r.choice(stores + loads + accs))
            elif mode == "disjoint":
                boxes = self.slabs(arr, len(ranks))
                who = r.sample(ranks, len(boxes))
                for _ in range(nops):
                    for k, b in zip(who, boxes):
                        self.op(k, arr, r.choice(stores + loads + accs), within=b)
            elif mode == "accall":
                for _ in range(nops):
                    for k in ranks:
                        self.op(k, arr, r.choice(accs))
            elif mode == "readall":
                for _ in range(nops):
                    for k in ranks:
                        self.op(k, arr, r.choice(loads))
            elif mode == "nb":
                # every process: non-blocking operations on boxes of its own, waited for in any order
                boxes = self.slabs(arr, len(ranks))
                who = r.sample(ranks, len(boxes))
                for k, b in zip(who, boxes):
                    hs = []
                    sub = self.subslabs(arr, b, nops)
                    for x in sub:
                        hs.append(self.op(k, arr, r.choice(["nbput", "nbget"] + (["nbacc"] if accs else [])), within=x))
                    r.shuffle(hs)
                    for h in hs:
                        self.wait(k, h)
            elif mode == "nbaccall":
                for k in ranks:
                    hs = [self.op(k, arr, "nbacc") for _ in range(nops)]
                    r.shuffle(hs)
                    for h in hs:
                        self.wait(k, h)
            elif mode == "nbgetall":
                for k in ranks:
                    hs = [self.op(k, arr, "nbget") for _ in range(nops)]
                    r.shuffle(hs)
                    for h in hs:
                        self.wait(k, h)
            elif mode == "local":
                if arr.blk == 1 and r.random() < 0.5:
                    ad = r.randint(1, 9)
                    for k in ranks:
                        self.s.add([k], "local", {"a": arr.num, "add": ad}, a=arr.num, add=ad)
                else:
                    for k in ranks:
                        self.s.add([k], "local", {"a": arr.num}, a=arr.num)
                if arr.blk == 1:
                    self.s.note("localend", a=arr.num)
                else:
                    self.s.note("localdrop", a=arr.num)
        for arr in arrs:
            self.sync(arr)

    def subslabs(self, arr, box, k):
        ln = [b - a + 1 for a, b in box]
        d = max(range(arr.nd), key=lambda i: ln[i])
        n = ln[d]
        k = min(k, n)
        cuts = sorted(self.rng.sample(range(1, n), k - 1)) if k > 1 else []
        out = []
        for a, b in zip([0] + cuts, cuts + [n]):
            x = list(box)
            x[d] = (box[d][0] + a, box[d][0] + b - 1)
            out.append(x)
        return out

    def readback(self, arr, k=None):
        """everything, by the given or a random process"""
        k = self.rng.choice(self.ranks(arr)) if k is None else k
        lo, hi = [0] * arr.nd, [d - 1 for d in arr.dims]
        self.s.add([k], "get", cxspec(arr, {"a": arr.num, "lo": lo, "hi": hi}), a=arr.num, lo=lo, hi=hi)

    def destroy(self, arr):
        who = arr.members if arr.members else "*"
        self.s.add(who, "destroy", {"a": arr.num}, logs=False, a=arr.num)
