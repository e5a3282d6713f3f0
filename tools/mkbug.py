"""mkbug.mk(id, property, needs, breaks, [(file, old, new[, occurrence])], demo_c, port, ranks, secs=60, extra_sh='')"""
import difflib
import json
import os
import shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(bug, prop, needs, breaks, edits, demo_c, port="ts", ranks=4, secs=100, env="", repeat=1):
    d = os.path.join(V, "seeded", bug)
    os.makedirs(d, exist_ok=True)
    files = {}
    for e in edits:
        f, old, new = e[:3]
        s = files.get(f) or open(os.path.join("/repo", f), errors="surrogateescape", newline="").read()
        n = s.count(old)
        if len(e) > 3:
            parts = s.split(old)
            k = e[3]
            assert k < n, (f, n)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else:
            assert n == 1, (f, old, n)
            s = s.replace(old, new)
        files[f] = s
    out = ""
    for f, s in files.items():
        a = open(os.path.join("/repo", f), errors="surrogateescape", newline="").read().split("\n")
        out += "\n".join(difflib.unified_diff(a, s.split("\n"), "a/" + f, "b/" + f, lineterm="")) + "\n"
    open(d + "/patch.diff", "w", errors="surrogateescape", newline="").write(out)
    shutil.copy(os.path.join(V, "tools/bugtemplate/run.sh"), d + "/run.sh")
    open(d + "/demo.c", "w").write(demo_c)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\n. "$(dirname "$0")/run.sh"\n%sdemo_build %s "$here/demo.c"\nfor k in %s; do demo_run %d %d || exit 1; done\nexit 0\n'
                % (env, port, " ".join(str(i + 1) for i in range(repeat)), secs, ranks))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


GA_HEAD = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <mpi.h>
#include "ga.h"
#include "macdecls.h"
static int me, np, bad = 0;
static void run(void);
int main(int argc, char **argv)
{
  int all;
  MPI_Init(&argc, &argv);
  GA_Initialize();
  MA_init(C_DBL, 2000000, 2000000);
  me = GA_Nodeid(); np = GA_Nnodes();
  run();
  GA_Sync();
  all = bad;
  GA_Igop(&all, 1, "+");
  if (me == 0) printf("%s\n", all ? "FAILED" : "ok");
  GA_Terminate();
  MPI_Finalize();
  return all ? 1 : 0;
}
'''
