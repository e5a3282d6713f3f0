"""C03: read-and-increment is atomic and linearizable."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01


def program(rng, np, ncases, n, grp=False, kinds=None):
    s = Script()
    for c in range(ncases):
        s.case("case%d" % c)
        members = None
        if grp and np > 2:
            members = rng.sample(range(np), rng.randint(2, np - 1))
            s.add(members, "group", None, logs=False, grp=0, list=members)
        seg = rng.random() < 0.4 and not members
        incs = rng.choice([[1], [1], [1, 2, 3], [5, 1, 0], [2, 9, 7], [3, 0], [1, -1]])
        ranks = members or list(range(np))
        if seg:
            k, isl = rng.choice([1, 2, 4]), rng.randint(0, 1)
            s.add("*", "segalloc", None, logs=False, seg=0, n=k, long=isl, base=rng.choice([0, 32765] if not isl else [0, 4294967293, -4, 8589934000]))
            ncell = k * np
            x = None
        else:
            x = gendata.new_array(rng, 0, np, types=["int", "long"], maxcells=30, kinds=kinds, grp=0 if members else None,
                                  members=members)
            s.add(ranks if members else "*", "create", None, logs=False, a=0, **x.kw)
            if members:   # whole-array operations synchronize the default group
                s.add(ranks, "defgrp", None, logs=False, grp=0)
            s.add(ranks if members else "*", "wbase", None, logs=False, a=0,
                  x=rng.choice([0, 65533] if x.typ == "int" else [0, 4294967293, -4, 8589934000]))
            if members:
                s.add(ranks, "defgrp", None, logs=False, grp=-1)
            ncell = x.size
        s.note("cells", x=[0] * ncell)
        for ph in range(2):
            hot = rng.sample(range(ncell), min(ncell, rng.choice([1, 1, 2, 3])))
            who = ranks if rng.random() < 0.7 else rng.sample(ranks, rng.randint(1, len(ranks)))
            args = dict(n=4 if -1 in incs else n, incs=incs, seed=rng.randint(1, 10 ** 6), delay=rng.choice([0, 0, 0, 30, 200]))
            for r in who:
                if seg:
                    s.add([r], "rmw", {}, seg=0, cells=hot, swaps=rng.randint(0, 1), **args)
                else:
                    s.add([r], "rmw", {}, a=0, cells=hot, api=9, **args)
            if members:
                s.add(ranks, "gsync", None, logs=False, grp=0)
            else:
                s.add("*", "sync", None, logs=False)
            s.note("order")
            r = rng.choice(ranks)
            if seg:
                s.add([r], "segread", {"op": "final"}, seg=0)
            else:
                s.add([r], "wread", {"op": "final"}, a=0)
            if members:
                s.add(ranks, "gsync", None, logs=False, grp=0)
            else:
                s.add("*", "sync", None, logs=False)
        if seg:
            s.add("*", "segfree", None, logs=False, seg=0)
        else:
            s.add(ranks if members else "*", "destroy", None, logs=False, a=0)
        if members:
            s.add(members, "grpfree", None, logs=False, grp=0)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 8 if THOROUGH else 1
    n = 16 if THOROUGH else 8
    for rep in range(k):
        J = {"VERIF_JITTER": "200,300,%d" % (SEED * 100 + rep)}

        def add(name, port, np, nodes=1, env=None, jit=False, calls=40, **kw):
            e = dict(env or {})
            if jit:
                e.update(J)
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, calls, **kw), port, np, nodes, e, trace="RmwTrace"))
        add("ts4", "ts", 4)
        add("ts7j", "ts", 7, jit=True, calls=20)
        add("ts5g", "ts", 5, grp=True)
        add("pr4", "pr", 4)
        add("pr6n2", "pr", 6, 2)
        add("pr4s", "pr", 4, 1, c01.PR_ENVS[1])
        add("pr6n3j", "pr", 6, 3, jit=True)
        add("pr4p2", "pr", 4, 1, {"GA_NUM_PROGRESS_RANKS_PER_NODE": "2"})
        add("pr5g", "pr", 5, 2, grp=True)
        add("mt4", "mt", 4)
        add("mt4n2", "mt", 4, 2)
        add("pt4", "pt", 4)
        add("pt4n2", "pt", 4, 2)
        add("mpi3", "mpi3", 4)
        add("mpi3j", "mpi3", 4, jit=True)
    # increments that need more than 32 bits
    s = Script()
    s.case("biginc")
    s.add("*", "create", None, logs=False, a=0, t="long", dims=[4], S=1, S2=1, kind="reg", api=0)
    s.add("*", "wbase", None, logs=False, a=0, x=0)
    s.note("cells", x=[0] * 4)
    for r in range(2):
        s.add([r], "rmw", {}, a=0, cells=[1], n=3, incs=[1, 2], seed=5, api=1, mul=4294967296)
    s.add("*", "sync", None, logs=False)
    s.note("order")
    out.append(Job("biginc", s, "ts", 2, trace="RmwTrace"))
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C03")
    c.model("Rmw", "RmwBig" if THOROUGH else "Rmw")
    c.model("Rmw", "RmwMsg")
    c.model("Rmw", "RmwBadLock", broken=True)
    c.model("Rmw", "RmwBadServer", broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
