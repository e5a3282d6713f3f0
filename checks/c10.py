"""C10: reductions and broadcasts give every member the defined result."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
from gengroups import Groups
import gendata
import c01


def program(rng, np, ncases, rounds, big=None):
    p = Groups(rng, np)
    s = p.s
    s.add("*", "flaginit", None, logs=False)
    for c in range(ncases):
        s.case("case%d" % c)
        p.reset()
        for _ in range(rng.choice([0, 1, 2, 3]) if np > 1 else 0):
            rng.choice([p.add_list, p.add_list, lambda: p.irreg(-1), lambda: p.dup(rng.choice(list(p.mem)))])()
        arrs = []
        for n in range(2):
            arrs.append(p.array(n, -1, maxcells=40, cx=rng.random() < 0.3))
        for _ in range(rounds):
            groups = list(p.mem)
            if rng.random() < 0.2:
                if any(p.default[x] != -1 for x in range(np)):
                    p.home()
                else:
                    p.setdef(rng.choice(groups))
            # one-sided traffic of a process before, between and after the collective operations of the others
            own = {}
            for x in arrs:
                boxes = p.slabs(x, np)
                for q, b in zip(rng.sample(range(np), len(boxes)), boxes):
                    own.setdefault(q, []).append((x, b))

            def traffic():
                for q in own:
                    if rng.random() < 0.35:
                        x, b = rng.choice(own[q])
                        p.op(q, x, rng.choice(["put", "put", "get", "scatter"] + ([] if x.typ == "llong" else ["acc"])), within=b)
            traffic()
            for _ in range(rng.randint(1, 6)):
                rng.choice([p.gop, p.gop, p.bcast])(rng.choice(groups), big=big)
                traffic()
            if all(p.default[x] == -1 for x in range(np)):
                p.sync()
                for x in arrs:
                    p.readback(x)
                p.sync()
            else:
                p.home()
                p.sync()
        p.home()
        p.sync()
        for x in arrs:
            p.readback(x)
            p.destroy(x)
        p.cleanup()
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    n = 30 if THOROUGH else 8
    for rep in range(4 if THOROUGH else 1):
        def add(name, port, np, nodes=1, env=None, rounds=7, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, rounds, **kw), port, np, nodes, env))
        add("ts1", "ts", 1)
        add("ts4", "ts", 4)
        add("ts7", "ts", 7)
        add("ts4big", "ts", 4, big=[4095, 4096, 20000, 66000])
        add("pr4n2", "pr", 4, 2)
        add("pr6big", "pr", 6, big=[33000])
        add("mt4", "mt", 4)
        add("pt6n2", "pt", 6, 2)
        add("mpi35", "mpi3", 5)
        add("ts8j", "ts", 8, env={"VERIF_JITTER": "300"})
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C10")
    c.model("CollectMC", "CollectMCBig" if THOROUGH else None)
    for b in ("Tag", "Order", "Root"):
        c.model("CollectMC", "CollectMCBad" + b, broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
