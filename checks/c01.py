"""C01: one-sided transfers touch exactly the addressed elements."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata

PR_ENVS = [
    {},
    {"COMEX_ENABLE_PUT_SMP": "0", "COMEX_ENABLE_GET_SMP": "0", "COMEX_ENABLE_ACC_SMP": "0",
     "COMEX_ENABLE_PUT_SELF": "0", "COMEX_ENABLE_GET_SELF": "0", "COMEX_ENABLE_ACC_SELF": "0"},
    {"COMEX_ENABLE_PUT_SMP": "0", "COMEX_ENABLE_GET_SMP": "0", "COMEX_ENABLE_ACC_SMP": "0",
     "COMEX_ENABLE_PUT_PACKED": "0", "COMEX_ENABLE_GET_PACKED": "0", "COMEX_ENABLE_ACC_PACKED": "0",
     "COMEX_ENABLE_PUT_DATATYPE": "0", "COMEX_ENABLE_GET_DATATYPE": "0"},
    {"COMEX_ENABLE_PUT_SMP": "0", "COMEX_ENABLE_GET_SMP": "0", "COMEX_ENABLE_ACC_SMP": "0",
     "COMEX_PUT_DATATYPE_THRESHOLD": "0", "COMEX_GET_DATATYPE_THRESHOLD": "0"},
    {"COMEX_ENABLE_PUT_SMP": "0", "COMEX_ENABLE_GET_SMP": "0", "COMEX_ENABLE_ACC_SMP": "0",
     "COMEX_ENABLE_PUT_IOV": "0", "COMEX_ENABLE_GET_IOV": "0", "COMEX_ENABLE_ACC_IOV": "0",
     "COMEX_EAGER_THRESHOLD": "64", "COMEX_MAX_NB_OUTSTANDING": "2"},
    {"COMEX_ENABLE_PUT_SMP": "0", "COMEX_ENABLE_GET_SMP": "0", "COMEX_ENABLE_ACC_SMP": "0",
     "COMEX_STATIC_BUFFER_SIZE": "4096", "COMEX_MAX_MESSAGE_SIZE": "1024"},
]


def program(rng, np, ncases, expand=None, grp=False, kinds=None, modes=None, maxcells=96, types=None, cx=True):
    p = gendata.DataProgram(rng, np)
    for c in range(ncases):
        p.s.case("case%d" % c)
        members = None
        if grp and np > 2:
            members = rng.sample(range(np), rng.randint(2, np))
            p.s.add(members, "group", None, logs=False, grp=0, list=members)
        arrs = []
        for a in range(rng.choice([1, 1, 2])):
            x = gendata.new_array(rng, a, np, expand=expand, grp=0 if members else None, members=members,
                                  kinds=kinds, maxcells=maxcells, types=types, cx=cx and rng.random() < 0.7)
            p.create(x)
            arrs.append(x)
        for _ in range(rng.randint(2, 3)):
            p.phase(arrs, rng.choice(modes or ["single", "single", "disjoint", "disjoint", "accall", "readall", "nb",
                                               "local", "nbaccall"]), rng.randint(2, 4))
            for x in arrs:
                p.readback(x)
            p.sync()
        for x in arrs:
            p.destroy(x)
        if members:
            p.s.add(members, "grpfree", None, logs=False, grp=0)
        p.sync()
    return p.s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 6 if THOROUGH else 1
    n = 30 if THOROUGH else 12
    for rep in range(k):
        for port, np, nodes in (("ts", 1, 1), ("ts", 4, 1), ("ts", 5, 1), ("ts", 3, 1)):
            out.append(Job("ts%d-%d" % (np, rep), program(rng, np, n), port, np, nodes))
        out.append(Job("ts4g-%d" % rep, program(rng, 4, n, grp=True), "ts", 4))
        out.append(Job("ts4x-%d" % rep, program(rng, 4, n, expand=3000, maxcells=40), "ts", 4))
        for i, env in enumerate(PR_ENVS):
            out.append(Job("pr%d-%d" % (i, rep), program(rng, 4, n), "pr", 4, 1, env))
            out.append(Job("pr%dx-%d" % (i, rep), program(rng, 4, n // 2, expand=3000, maxcells=40), "pr", 4,
                           1 if i else 2, env))
        out.append(Job("pr4n2-%d" % rep, program(rng, 4, n), "pr", 4, 2))
        out.append(Job("pr4p2-%d" % rep, program(rng, 4, n), "pr", 4, 1, {"GA_NUM_PROGRESS_RANKS_PER_NODE": "2"}))
        for port in ("mt", "pt", "mpi3"):
            out.append(Job("%s-%d" % (port, rep), program(rng, 3, n), port, 3))
            out.append(Job("%sx-%d" % (port, rep), program(rng, 4, n // 2, expand=3000, maxcells=40), port, 4,
                           2 if port in ("mt", "pt") else 1))
    for j in out:
        j.exe = exes[j.port]
    return out


def gaexes(ports, extra=("gaops.c", "gadist.c", "galife.c", "gagrp.c", "gaelem.c", "gamat.c", "gaghost.c", "gascan.c", "gaprop.c")):
    libs = gabuild.build(ports)
    return {p: gabuild.link(["gadrv.c", "vdrv.c"] + list(extra), "gadrv", p, libs) for p in ports}


def main():
    c = Check("C01")
    c.model("GAIndexMC", "GAIndexMCBig" if THOROUGH else None)
    for k in ("Msg", "Dir"):
        c.model("GATransfer", "GATransfer" + k + ("Big" if THOROUGH else ""))
    c.run(jobs(c, gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
