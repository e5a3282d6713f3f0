"""C04: mutexes exclude each other and every waiter is served."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01


def program(rng, np, ncases, n):
    s = Script()
    flag = 0
    s.add("*", "flaginit", None, logs=False)
    for c in range(ncases):
        s.case("case%d" % c)
        ga = rng.random() < 0.6
        if ga:
            num = rng.choice([1, 2, 3, np, np + 1, 2 * np + 1, 7])
            s.add("*", "mutexes", None, logs=False, n=num)
        else:
            per = [rng.choice([0, 1, 2, 3]) for _ in range(np)]
            if sum(per) == 0:
                per[rng.randrange(np)] = 2
            num = sum(per)
            s.add("*", "amutexes", None, logs=False, n=per)
        x = gendata.new_array(rng, 0, np, types=["int", "long"], dims=[num], kinds=["reg", "bc", "irreg", "restricted"])
        s.add("*", "create", None, logs=False, a=0, **x.kw)
        s.add("*", "wbase", None, logs=False, a=0, x=0)
        s.note("mutexes", n=num)
        for ph in range(2):
            if num > 1 and np > 1 and rng.random() < 0.8:
                # a held mutex does not keep others from being taken and released
                a, b = rng.sample(range(np), 2)
                ms = rng.sample(range(num), num)
                s.add([a], "lock", None, logs=False, m=ms[0])
                s.add([a], "flagset", None, logs=False, f=flag)
                s.add([b], "flagwait", None, logs=False, f=flag)
                for m in ms[1:]:
                    s.add([b], "lock", None, logs=False, m=m)
                    s.add([b], "unlock", None, logs=False, m=m)
                s.add([b], "flagset", None, logs=False, f=flag + 1)
                s.add([a], "flagwait", None, logs=False, f=flag + 1)
                s.add([a], "unlock", None, logs=False, m=ms[0])
                flag += 2
                s.add("*", "sync", None, logs=False)   # two mutexes taken below could wait for this one
            ms = rng.sample(range(num), min(num, rng.choice([1, 1, 2, 3, 5])))
            who = list(range(np)) if rng.random() < 0.7 else rng.sample(range(np), rng.randint(1, np))
            for r in who:
                s.add([r], "crit", {}, a=0, m=ms, n=n, two=rng.randint(0, 1), seed=rng.randint(1, 10 ** 6),
                      delay=rng.choice([0, 0, 50, 300]))
            s.add("*", "sync", None, logs=False)
            s.note("order")
            s.add([rng.randrange(np)], "wread", {"op": "final"}, a=0)
            s.add("*", "sync", None, logs=False)
        s.add("*", "mutfree", None, logs=False)
        s.add("*", "destroy", None, logs=False, a=0)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 8 if THOROUGH else 1
    n = 14 if THOROUGH else 7
    for rep in range(k):
        J = {"VERIF_JITTER": "200,300,%d" % (SEED * 100 + rep)}

        def add(name, port, np, nodes=1, env=None, jit=False, secs=12):
            e = dict(env or {})
            if jit:
                e.update(J)
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, secs), port, np, nodes, e, trace="MutexTrace"))
        add("ts4", "ts", 4)
        add("ts7j", "ts", 7, jit=True, secs=6)
        add("pr4", "pr", 4)
        add("pr6n2", "pr", 6, 2)
        add("pr4s", "pr", 4, 1, c01.PR_ENVS[1])
        add("pr6n3j", "pr", 6, 3, jit=True)
        add("pr4p2", "pr", 4, 1, {"GA_NUM_PROGRESS_RANKS_PER_NODE": "2"})
        add("mt4", "mt", 4, secs=8)
        add("mt4n2", "mt", 4, 2, secs=8)
        add("pt4n2", "pt", 4, 2)
        add("pt3", "pt", 3)
        add("mpi3", "mpi3", 4)
        add("mpi3j", "mpi3", 5, jit=True, secs=6)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C04")
    c.model("Mutex", "MutexBig" if THOROUGH else "Mutex")
    for b in ("Fence", "Alias", "Queue"):
        c.model("Mutex", "MutexBad" + b, broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
