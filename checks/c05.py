"""C05: completion, ordering and visibility of stores."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01

STORES = ["put", "put", "acc", "sput", "sacc", "scatter", "scatacc", "pput", "pacc", "nbput", "nbacc"]
LOADS = ["get", "get", "sget", "gather", "pget", "nbget"]


def chain(rng, np, ncases, steps, expand=None, grp=False, maxcells=60, kinds=None):
    """Boxes of arrays are handed from process to process: stores, fence, flag / flag, loads.
    Within a step a process reads its own blocking stores without any fence."""
    p = gendata.DataProgram(rng, np)
    s = p.s
    s.add("*", "flaginit", None, logs=False)
    flag = 0
    for c in range(ncases):
        s.case("case%d" % c)
        members = None
        if grp and np > 2:
            members = rng.sample(range(np), rng.randint(2, np))
            s.add(members, "group", None, logs=False, grp=0, list=members)
        arrs, boxes = [], []
        for a in range(rng.choice([1, 2])):
            x = gendata.new_array(rng, a, np, expand=expand, maxcells=maxcells, cx=rng.random() < 0.4,
                                  grp=0 if members else None, members=members, kinds=kinds)
            p.create(x)
            arrs.append(x)
            for b in p.slabs(x, rng.choice([1, 2, 3])):
                boxes.append([x, b, None, 0])   # array, box, flag of the last hand-over, its owner
        ranks = members or list(range(np))
        for bx in boxes:
            bx[3] = rng.choice(ranks)
        for st in range(steps * len(boxes)):
            bx = rng.choice(boxes)
            x, b, f, k = bx
            if f is not None:
                s.add([k], "flagwait", None, logs=False, f=f)
                # what the others stored
                if rng.random() < 0.8:
                    p.op(k, x, rng.choice(["get", "gather"] if x.blk > 1 else ["get", "gather", "sget"]), within=b)
            nest = rng.choice([1, 1, 1, 2])
            for _ in range(nest):
                s.add([k], "initfence", None, logs=False)
            handles = []
            stores = [o for o in STORES if not (x.blk > 1 and o[0] in "sp" and o[1] in "pa" and o in ("sput", "sacc", "pput", "pacc"))
                      and not (x.typ == "llong" and "acc" in o)]
            loads = [o for o in LOADS if not (x.blk > 1 and o in ("sget", "pget"))]
            weak = False          # a non-blocking store of this step may not yet be visible
            for _ in range(rng.randint(1, 5)):
                o = rng.choice(stores + ["load"] * 3)
                if o == "load":
                    if weak:
                        continue
                    o = rng.choice(loads)
                elif weak and not o.startswith("nbacc"):
                    continue
                h = p.op(k, x, o, within=b)
                if o == "nbget":
                    p.wait(k, h)
                elif o.startswith("nb"):
                    weak = True
                    handles.append(h)
                    if o == "nbput":
                        break
            rng.shuffle(handles)
            for h in handles:
                p.wait(k, h)
            if rng.random() < 0.2:
                s.add([k], "delay", None, logs=False, us=rng.choice([50, 500]))
            for _ in range(nest):
                s.add([k], "fence", None, logs=False)
            bx[2] = flag
            s.add([k], "flagset", None, logs=False, f=flag)
            flag += 1
            bx[3] = rng.choice([r for r in ranks if r != k] or ranks)
        for x in arrs:
            p.sync(x)
            p.readback(x)
        s.add("*", "sync", None, logs=False)
        for x in arrs:
            p.destroy(x)
        if members:
            s.add(members, "grpfree", None, logs=False, grp=0)
        s.add("*", "sync", None, logs=False)
    return s


def pool(rng, np, ncases, many, expand=None):
    """Many outstanding operations on cells of their own, waited for and tested in any order, with
    blocking operations in between."""
    p = gendata.DataProgram(rng, np)
    s = p.s
    for c in range(ncases):
        s.case("case%d" % c)
        arrs, todo = [], {k: [] for k in range(np)}
        for a in range(2):
            x = gendata.new_array(rng, a, np, maxcells=many, expand=expand, nd=rng.choice([1, 2, 2, 3]),
                                  dims=None if a else [many // 2 + rng.randint(0, many // 2)])
            p.create(x)
            arrs.append(x)
            cells = list(range(x.size))
            rng.shuffle(cells)
            for i, cell in enumerate(cells):
                co = []
                for d in reversed(x.dims):
                    co.append(cell % d)
                    cell //= d
                co.reverse()
                todo[i % np].append((x, [(v, v) for v in co]))
        free = {k: list(range(900)) for k in range(np)}
        for k in range(np):
            rng.shuffle(todo[k])
            open_, late = [], rng.choice([1.0, 0.9, 0.5])
            for x, b in todo[k]:
                kinds = ["nbput", "nbput", "nbget", "put", "get"] + ([] if x.typ == "llong" else ["nbacc", "acc"])
                o = rng.choice(kinds)
                if o.startswith("nb"):
                    open_.append(p.op(k, x, o, within=b))
                else:
                    p.op(k, x, o, within=b)
                if rng.random() > late and open_:
                    p.wait(k, open_.pop(rng.randrange(len(open_))))
            if rng.random() < 0.8:
                rng.shuffle(open_)
            elif rng.random() < 0.5:
                open_.reverse()
            for h in open_:
                p.wait(k, h)
        for x in arrs:
            p.sync(x)
        for x in arrs:
            p.readback(x)
        s.add("*", "sync", None, logs=False)
        for x in arrs:
            p.destroy(x)
        p.nh = {}
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 12 if THOROUGH else 6
    for rep in range(k):
        J = {"VERIF_JITTER": "250,400,%d" % (SEED * 100 + rep)}

        def add(name, fn, port, np, nodes=1, env=None, jit=False, size=6, **kw):
            e = dict(env or {})
            if jit:
                e.update(J)
            out.append(Job("%s-%d" % (name, rep), fn(rng, np, n, size, **kw), port, np, nodes, e))
        add("ts4", chain, "ts", 4)
        add("ts4g", chain, "ts", 4, jit=True, grp=True)
        add("ts3x", chain, "ts", 3, expand=300)
        for i, env in enumerate(c01.PR_ENVS):
            add("pr%d" % i, chain, "pr", 4, 1, env, jit=i % 2 == 1)
        add("pr6n3", chain, "pr", 6, 3, jit=True)
        add("pr5n2g", chain, "pr", 5, 2, jit=True, grp=True)
        add("pr4n4x", chain, "pr", 4, 4, jit=True, expand=3000)
        for port in ("mt", "pt"):
            add(port + "4", chain, port, 4, jit=True)
            add(port + "4n2", chain, port, 4, 2)
            add(port + "4n2x", chain, port, 4, 2, jit=True, expand=3000)
        add("mpi3", chain, "mpi3", 4)
        add("mpi3j", chain, "mpi3", 4, jit=True, expand=2000)
        n2, n = n, (4 if THOROUGH else 1)
        add("tspool", pool, "ts", 2, size=700)
        add("prpool", pool, "pr", 2, size=700, env=c01.PR_ENVS[1])
        add("prpool2", pool, "pr", 2, 2, size=200, env={"COMEX_MAX_NB_OUTSTANDING": "1"})
        n = 4
        add("tspool3", pool, "ts", 3, size=120, env={"COMEX_MAX_NB_OUTSTANDING": "3"})
        add("prpool5", pool, "pr", 3, 3, size=120, env={"COMEX_MAX_NB_OUTSTANDING": "5"}, jit=True, expand=2000)
        add("mtpool", pool, "mt", 3, 3, size=120, env={"COMEX_MAX_NB_OUTSTANDING": "4"}, expand=2000)
        add("ptpool", pool, "pt", 4, 2, size=120, env={"COMEX_MAX_NB_OUTSTANDING": "7"})
        add("mpi3pool", pool, "mpi3", 3, size=120, env={"COMEX_MAX_NB_OUTSTANDING": "6"}, expand=2000)
        add("mpi3pool2", pool, "mpi3", 3, size=120, env={"COMEX_MAX_NB_OUTSTANDING": "2"}, jit=True)
        n = n2
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C05")
    for k in ("Msg", "Dir", "Fenced"):
        c.model("GATransfer", "GATransfer" + k + ("Big" if THOROUGH else ""))
    c.model("GATransfer", "GATransferBadFence", broken=True)
    c.model("GATransfer", "GATransferBadMix", broken=True)
    c.model("NbPool", "NbPool" + ("Big" if THOROUGH else ""))
    c.model("NbPool", "NbPoolBad", broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
