"""C16: the local memory allocator never hands out overlapping memory."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gabuild

SZ = [1, 4, 8, 4, 8, 16, 8, 16, 32, 1, 8, 8, 4, 8, 8, 16, 8]
HUGE = ["9223372036854775807", "4611686018427387904", "2305843009213693952", "1152921504606846976",
        "576460752303423488", "1152921504606847000", "9223372036854775800"]


def case(s, rng, nops, name):
    s.case(name)
    t = rng.choice([0, 1, 4, 4, 7, 8])
    st, hp = rng.choice([0, 40, 300, 2000]), rng.choice([0, 60, 500, 3000])
    if st + hp < 100:
        hp = 400
    align = rng.random() < 0.4     # cases where the alignment changes on the way
    s.add([0], "minit", dict(t=t, st=st, hp=hp), t=t, st=st, hp=hp, shift=16 * rng.randrange(16),
          auto=1 if rng.random() < 0.2 else 0)
    size = (st + hp) * SZ[t] + 300
    h, stk, old, free = {}, [], [], list(range(200))   # slot -> (kind, t, n) as far as known here
    types = rng.choice([[t], list(range(17)), [0, 8], [4, 1, 8]])

    def alloc(kind=None, n=None, q=-1, hn=None):
        if not free:
            return
        x = rng.choice(types)
        kind = kind or rng.choice(["heap", "heap", "stack"])
        if n is None:
            n = rng.choice([0, 1, 2, 3, 7, rng.randint(1, 40), rng.randint(1, 200), rng.randint(0, max(1, size // SZ[x])),
                            rng.randint(0, max(1, size // SZ[x] // 8))])
        i = free.pop(0)
        get = rng.randint(0, 1)
        sp = dict(t=x, kind=kind, q=q, huge=1 if hn else 0)
        if q < 0 and not hn:
            sp["n"] = n
        s.add([0], "malloc", sp, s=i, t=x, kind=kind, n=None if q >= 0 or hn else n, hn=hn, q=q, get=get)
        h[i] = (kind, x, n)
        if kind == "stack":
            stk.append(i)

    def drop(i):
        h.pop(i, None)
        if i in stk:
            stk.remove(i)
        old.append(i)

    s.add([0], "minq", dict(t=t), t=t)
    if rng.random() < 0.5:
        kind = rng.choice(["heap", "stack"])
        types_, types[:] = types[:], [t]
        alloc(kind, hp if kind == "heap" else st)
        types[:] = types_
    for _ in range(nops):
        r = rng.random()
        heaps = [i for i in h if h[i][0] == "heap"]
        if r < 0.34:
            alloc()
        elif r < 0.40:
            q = rng.randrange(7)
            alloc("heap" if q in (1, 2, 3) else "stack" if q in (4, 5, 6) else None, q=q)
            if rng.random() < 0.7 and h:      # give most of it back
                i = max(h)
                if h[i][0] == "heap":
                    s.add([0], "mfree", {}, s=i)
                else:
                    s.add([0], "mpop", {}, s=i)
                drop(i)
        elif r < 0.55 and heaps:
            i = rng.choice(heaps)
            s.add([0], "mfree", {}, s=i)
            drop(i)
        elif r < 0.65 and heaps:
            i = rng.choice(heaps)
            n = max(0, h[i][2] if h[i][2] else 0)
            k = rng.choice([0, 1, n // 2, max(0, n - 1), n, n + 3, -1, rng.randint(0, n)])
            s.add([0], "mpiece", dict(n=k), s=i, n=k)
            if k >= n:
                pass     # the handle is tried again later: dead or not, the history tells
            else:
                h[i] = (h[i][0], h[i][1], n - max(0, k))
        elif r < 0.73 and stk:
            i = stk[-1] if rng.random() < 0.8 else rng.choice(stk)
            s.add([0], "mpop", {}, s=i)
            if i == stk[-1]:
                drop(i)
        elif r < 0.76 and stk:
            i = rng.choice(stk[-3:])
            s.add([0], "mchop", {}, s=i)
            for j in stk[stk.index(i):]:
                drop(j)
        elif r < 0.80 and (old or h):
            # wrong kind, freed, or never valid
            i = rng.choice(old + list(h))
            raw = rng.choice([None, None, None, -1, 777, 1000000])
            op = rng.choice(["mfree", "mpop", "mpiece", "mchop"])
            if raw is None and i in h:
                op = {"heap": rng.choice(["mpop", "mchop"]), "stack": rng.choice(["mfree", "mpiece"])}[h[i][0]]
            s.add([0], op, dict(n=0), s=i, n=0, raw=raw)
        elif r < 0.83 and h:
            i = rng.choice(list(h))
            s.add([0], "mget", {}, s=i, t=h[i][1])
        elif r < 0.88:
            s.add([0], "mverify", {})
        elif r < 0.92 and h:
            s.add([0], "msmash", {}, s=rng.choice(list(h)), side=rng.randint(0, 1), d=rng.randint(0, 3),
                  x=rng.choice([1, 2, 4, 64, 128, 255]))
        elif r < 0.94 and align:
            v = rng.choice([0, 0, 3, 4, 5, 6, 7, 8, 31, -1])
            s.add([0], "malign", dict(n=v), n=v)
        elif r < 0.955:
            if rng.random() < 0.5:
                alloc(hn=rng.choice(HUGE))
            else:
                alloc(n=rng.choice([-1, -5]))
        elif r < 0.97:
            a, b, n = rng.randrange(17), rng.randrange(17), rng.randint(0, 5000)
            s.add([0], "msizeof", dict(t=a, u=b, n=n), t=a, u=b, n=n)
        else:
            x = rng.choice(types)
            s.add([0], "minq", dict(t=x), t=x)
    # everything is given back, in any order; then the arena is whole again
    if rng.random() < 0.7:
        rest = [("mfree", i) for i in h if h[i][0] == "heap"]
        rng.shuffle(rest)
        pops = [("mpop", i) for i in reversed(stk)]
        while rest or pops:
            op, i = (rest if rest and (not pops or rng.random() < 0.5) else pops).pop(0)
            s.add([0], op, {}, s=i)
    s.add([0], "minq", dict(t=t), t=t)
    s.add([0], "mverify", {})


def jobs(check, exe):
    rng, out = check.rng, []
    for k in range(40 if THOROUGH else 10):
        s = Script()
        for c in range(40 if THOROUGH else 24):
            case(s, rng, rng.choice([20, 60, 120]), "case%d" % c)
        out.append(Job("ma%d" % k, s, "ts", 1, trace="MATrace", exe=exe))
    return out


def main():
    c = Check("C16")
    c.model("GAMAMC", "GAMAMCBig" if THOROUGH else "GAMAMC")
    for b in ("Merge", "Trim"):
        c.model("GAMAMC", "GAMAMCBad" + b, broken=True)
    libs = gabuild.build(["ts"])
    c.run(jobs(c, gabuild.link(["madrv.c", "vdrv.c"], "madrv", "ts", libs, wraps=["malloc"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
