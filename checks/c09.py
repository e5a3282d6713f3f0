"""C09: process groups translate ranks correctly and are isolated."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
from gengroups import Groups
import gendata
import c01


def program(rng, np, ncases, steps):
    p = Groups(rng, np)
    s = p.s
    s.add("*", "flaginit", None, logs=False)
    for c in range(ncases):
        s.case("case%d" % c)
        p.reset()
        arrs, nums = [], list(range(15))
        for _ in range(steps):
            groups = list(p.mem)
            g = rng.choice(groups)
            free = all(p.default[x] == -1 for x in range(np))
            k = rng.random()
            if len(groups) < 12 and k < 0.34 or len(groups) == 1:
                rng.choice([p.add_list, p.add_list, lambda: p.split(g), lambda: p.irreg(g), lambda: p.dup(g),
                            lambda: p.self_(rng.randrange(np))])()
            elif k < 0.44:
                # the members of a group make it their default (or go back)
                if rng.random() < 0.35:
                    p.home()
                else:
                    p.setdef(g)
            elif k < 0.52:
                gone = [x for x in groups if x != -1 and x not in p.default.values() and not any(a.grp == x for a in arrs)]
                if gone:
                    p.destroy_group(rng.choice(gone))
            elif k < 0.62 and len(arrs) < 6 and nums:
                if g != -1 or free:
                    arrs.append(p.array(nums.pop(), g, maxcells=30, kinds=["reg", "reg", "irreg", "ghost", "restricted"] if g != -1 else None))
            elif k < 0.68 and arrs:
                x = rng.choice(arrs)
                if x.grp is not None or free:
                    arrs.remove(x)
                    p.sync(x)
                    p.readback(x)
                    p.destroy(x)
            elif k < 0.85:
                for h in rng.sample(groups, min(len(groups), 3)):
                    rng.choice([p.gop, p.bcast])(h)
            else:
                # all at once on different, overlapping groups
                work = [x for x in arrs if x.grp is not None or free]
                rng.shuffle(work)
                for x in work[:4]:
                    p.sync(x)
                    boxes = p.slabs(x, len(p.ranks(x)))
                    for q, b in zip(rng.sample(p.ranks(x), len(boxes)), boxes):
                        p.op(q, x, rng.choice(["put", "put", "get", "scatter"] + ([] if x.typ == "llong" else ["acc"])), within=b)
                    p.sync(x)
                    p.readback(x)
            for r in range(np):
                if rng.random() < 0.4:
                    p.ask(r)
        p.home()
        for x in arrs:
            p.sync(x)
            p.readback(x)
            p.destroy(x)
        p.cleanup()
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    n = 40 if THOROUGH else 10
    for rep in range(4 if THOROUGH else 1):
        def add(name, port, np, nodes=1, env=None, steps=24, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, steps, **kw), port, np, nodes, env))
        add("ts1", "ts", 1, steps=14)
        add("ts3", "ts", 3)
        add("ts5", "ts", 5)
        add("ts8", "ts", 8)
        add("pr4n2", "pr", 4, 2)
        add("pr6", "pr", 6)
        add("mt4", "mt", 4)
        add("pt6n2", "pt", 6, 2)
        add("mpi35", "mpi3", 5)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C09")
    c.model("GAGroupsMC", "GAGroupsMCBig" if THOROUGH else None)
    for b in ("Dup", "Nest"):
        c.model("GAGroupsMC", "GAGroupsMCBad" + b, broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
