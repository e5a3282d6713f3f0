"""C06: synchronization is a barrier that completes all communication."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01

STORES = ["put", "put", "acc", "sput", "sacc", "scatter", "scatacc", "pput", "pacc", "nbput", "nbput", "nbacc"]


class Sync(gendata.DataProgram):
    def bsync(self, members, grp, delays=None):
        """one synchronization of the members; grp None: the world"""
        r, s = self.rng, self.s
        if grp is None:
            s.add("*", "bsync", {}, grp=-1, how=r.choice([0, 0, 0, 1, 2]))
        elif r.random() < 0.3:
            s.add(members, "defgrp", None, logs=False, grp=grp)
            s.add(members, "bsync", {}, grp=-1, how=0)
            s.add(members, "defgrp", None, logs=False, grp=-1)
        else:
            s.add(members, "bsync", {}, grp=grp)
        s.note("syncall", rs=list(members))


def program(rng, np, ncases, rounds, expand=None, groups=True, maxcells=60):
    p = Sync(rng, np)
    s = p.s
    s.add("*", "flaginit", None, logs=False)
    flag = 0
    everyone = list(range(np))
    for c in range(ncases):
        s.case("case%d" % c)
        scopes = [(None, everyone, [])]
        if groups and np > 1:
            for g in range(rng.choice([1, 2, 3])):
                m = rng.sample(everyone, rng.randint(1, np))
                s.add(m, "group", None, logs=False, grp=g, list=m)
                scopes.append((g, m, []))
        num = 0
        for g, m, arrs in scopes:
            for _ in range(1 if g is not None or rng.random() < 0.6 else 2):
                x = gendata.new_array(rng, num, np, expand=expand, maxcells=maxcells, cx=rng.random() < 0.3,
                                      grp=g, members=None if g is None else m, kinds=["reg"] if g is not None and rng.random() < 0.7 else None)
                num += 1
                p.create(x)
                arrs.append(x)
        # one array whose cells belong to one process each: the outsiders' work
        solo = gendata.new_array(rng, num, np, maxcells=4 * np, dims=[3 * np], typ="int", kinds=["reg"])
        p.create(solo)
        open_ = {k: [] for k in everyone}
        for _ in range(rounds):
            g, m, arrs = rng.choice(scopes if len(scopes) == 1 or rng.random() < 0.3 else scopes[1:])
            outside = [k for k in everyone if k not in m]
            for _ in range(rng.choice([1, 1, 2])):
                p.bsync(m, g)
            late = rng.sample(m, rng.randint(0, len(m)))
            helper = rng.choice(outside) if outside and rng.random() < 0.6 else None
            for x in arrs:
                boxes = p.slabs(x, len(m))
                who = rng.sample(m, len(boxes))
                stores = [o for o in STORES if not (x.blk > 1 and o in ("sput", "sacc", "pput", "pacc"))
                          and not (x.typ == "llong" and "acc" in o)]
                for k, b in zip(who, boxes):
                    for sub in p.subslabs(x, b, rng.choice([1, 2, 3])):
                        o = rng.choice(stores)
                        h = p.op(k, x, o, within=sub)
                        if o.startswith("nb"):
                            if rng.random() < 0.3:
                                p.wait(k, h)
                            else:
                                open_[k].append(h)
            for k in late:
                s.add([k], "delay", None, logs=False, us=rng.choice([10, 100, 500, 3000]))
            if helper is not None:
                # a member enters only after a process outside has done some work
                k = rng.choice(m)
                for _ in range(2):
                    p.op(helper, solo, rng.choice(["put", "get", "acc"]), within=[(3 * helper, 3 * helper + 2)])
                s.add([helper], "flagset", None, logs=False, f=flag)
                s.add([k], "flagwait", None, logs=False, f=flag)
                flag += 1
            for _ in range(rng.choice([1, 1, 1, 2])):
                p.bsync(m, g)
            for x in arrs:
                for k in rng.sample(m, min(len(m), rng.choice([1, 2, 3]))):
                    if rng.random() < 0.5:
                        p.readback(x, k)
                    else:
                        p.op(k, x, "get")
            for k in m:
                while open_[k] and rng.random() < 0.6:
                    p.wait(k, open_[k].pop(rng.randrange(len(open_[k]))))
        for k in everyone:
            for h in open_[k]:
                p.wait(k, h)
        s.add("*", "sync", None, logs=False)
        p.readback(solo)
        s.add("*", "sync", None, logs=False)
        for g, m, arrs in reversed(scopes):
            for x in arrs:
                p.destroy(x)
            if g is not None:
                s.add(m, "grpfree", None, logs=False, grp=g)
        p.destroy(solo)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 6 if THOROUGH else 1
    n = 12 if THOROUGH else 6
    for rep in range(k):
        J = {"VERIF_JITTER": "250,500,%d" % (SEED * 100 + rep)}

        def add(name, port, np, nodes=1, env=None, jit=False, **kw):
            e = dict(env or {})
            if jit:
                e.update(J)
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, 5, **kw), port, np, nodes, e))
        add("ts4", "ts", 4)
        add("ts6j", "ts", 6, jit=True)
        add("ts3x", "ts", 3, jit=True, expand=300)
        for i, env in enumerate(c01.PR_ENVS):
            add("pr%d" % i, "pr", 4, 1, env, jit=i % 2 == 0)
        add("pr6n3", "pr", 6, 3, jit=True)
        add("pr5n2x", "pr", 5, 2, jit=True, expand=3000)
        add("pr4p2", "pr", 4, 1, {"GA_NUM_PROGRESS_RANKS_PER_NODE": "2"}, jit=True)
        for port in ("mt", "pt"):
            add(port + "4", port, 4, jit=True)
            add(port + "5n2", port, 5, 2, jit=True)
            add(port + "4n2x", port, 4, 2, expand=400)
        add("mpi3", "mpi3", 4)
        add("mpi3j", "mpi3", 5, jit=True, expand=1000)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C06")
    c.model("Barrier", "BarrierBig" if THOROUGH else None, timeout=1500)
    for b in ("Fence", "Count", "Wait"):
        c.model("Barrier", "BarrierBad" + b, broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
