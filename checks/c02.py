"""C02: concurrent accumulates lose nothing and add nothing."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01

REP = {"ts": 40, "pr": 200, "mt": 100, "pt": 60, "mpi3": 40}   # an accumulate is repeated so often in a row
TYPES = ["int", "long", "flt", "dbl", "scpl", "dcpl"]


def contention(rng, np, ncases, nops, expand=None, grp=False, rep=100):
    """All processes accumulate into the same few cells as often as they can, in every form."""
    p = gendata.DataProgram(rng, np)
    for c in range(ncases):
        p.s.case("case%d" % c)
        x = gendata.new_array(rng, 0, np, types=TYPES, maxcells=rng.choice([4, 12, 30]), cx=rng.random() < 0.5,
                              expand=expand)
        x.cap //= 4
        p.create(x)
        kinds = ["acc", "acc", "sacc", "pacc", "scatacc", "nbacc"]
        if x.blk > 1:
            kinds = ["acc", "scatacc", "nbacc"]
        for ph in range(2):
            # everything of one process in a row, so the processes meet
            for k in range(np):
                hs = []
                for i in range(nops):
                    kd = rng.choice(kinds)
                    h = p.op(k, x, kd, rep=rng.choice([None, None, 20, rep]) if kd in ("acc", "sacc", "pacc", "scatacc") else None)
                    if kd == "nbacc":
                        hs.append(h)
                    if hs and rng.random() < 0.4:
                        p.wait(k, hs.pop(rng.randrange(len(hs))))
                for h in hs:
                    p.wait(k, h)
            p.sync(x)
            p.readback(x)
            p.sync()
        p.destroy(x)
        p.sync()
    return p.s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 16 if THOROUGH else 7
    for rep in range(k):
        J = {"VERIF_JITTER": "200,300,%d" % (SEED * 100 + rep)}

        def add(name, port, np, nodes=1, env=None, jit=False, **kw):
            e = dict(env or {})
            if jit:
                e.update(J)
            out.append(Job("%s-%d" % (name, rep), contention(rng, np, n, 6, rep=REP[port], **kw), port, np, nodes, e))
        add("ts4", "ts", 4)
        add("ts8j", "ts", 8, jit=True)
        add("ts4x", "ts", 4, expand=3000)
        for i, env in enumerate(c01.PR_ENVS):
            add("pr%d" % i, "pr", 4, 1, env)
        add("pr6n2", "pr", 6, 2)
        add("pr6n3j", "pr", 6, 3, jit=True)
        add("pr4x", "pr", 4, 2, expand=3000)
        add("prmix", "pr", 4, 1, {"COMEX_ENABLE_ACC_SMP": "0", "COMEX_ENABLE_ACC_PACKED": "0"})
        add("prmix2", "pr", 4, 1, {"COMEX_ENABLE_ACC_SELF": "0", "COMEX_ENABLE_ACC_IOV": "0"})
        for port in ("mt", "pt"):
            add(port + "4", port, 4)
            add(port + "4n2", port, 4, 2)
            add(port + "4x", port, 4, 2, expand=2000 if port == "pt" or THOROUGH else 400)
        add("mpi3", "mpi3", 4)
        add("mpi3j", "mpi3", 4, jit=True)
        # mixed with puts, gets and the other modes of C01
        out.append(Job("mix-%d" % rep, c01.program(rng, 4, n, modes=["accall", "nbaccall"], types=TYPES, cx=True), "pr", 4, 2))
        out.append(Job("mixg-%d" % rep, c01.program(rng, 4, n, modes=["accall", "nbaccall"], types=TYPES, cx=True,
                                                    grp=True), "ts", 4))
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C02")
    for k in ("Msg", "Dir", "Fenced"):
        c.model("GATransfer", "GATransfer" + k + ("Big" if THOROUGH else ""))
    c.model("AccAtomic")
    c.model("AccAtomic", "AccAtomicBad", broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
