"""Builds GA, ComEx (each port), MA, pario, tcgmsg and gparrays from /repo's working tree.

Everything is compiled from REPO's current sources into WORK (never inside REPO).  Objects are
cached by a hash of the source, of every header of the repository, and of the command, so a
change to a source file is always seen, whatever the time stamps say.

  python3 gabuild.py [ports...]     builds libga.a and libcomex-PORT.a
  build(ports), link(driver, port)  the same, from the checks
"""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "_work"))
CFG = os.path.join(VERIF, "build", "cfg")
JOBS = os.cpu_count() or 4

SUBST = {  # what configure puts into the .in headers here
    "C_POINTER_AS_INTEGER": "long", "F2C_DOUBLE_PRECISION_C_TYPE": "double",
    "F2C_GETARG": "f2c_getarg_", "F2C_IARGC": "f2c_iargc_", "F2C_INTEGER_C_TYPE": "long",
    "F2C_REAL_C_TYPE": "float", "GA_ACCESS_INDEX_TYPE": "integer*8",
    "MA_ACCESS_INDEX_TYPE": "integer*8", "MA_ACCESS_INDEX_TYPE_C": "long",
    "MA_LONG_DOUBLE": "long double",
}
GENERATED = ["global/src/global.fh.in", "ma/mafdecls.fh.in", "ma/matypes.h.in",
             "gaf2c/typesf2c.h.in", "gaf2c/farg.h.in"]

GA_C = """compat/random.c ma/error.c ma/f2c.c ma/ma.c ma/string-util.c ma/table.c
LinAlg/lapack+blas/xgemm.c
global/src/base.c global/src/capi.c global/src/collect.c global/src/datatypes.c global/src/decomp.c
global/src/DP.c global/src/elem_alg.c global/src/fapi.c global/src/ga_diag_seqc.c
global/src/ga_malloc.c global/src/ga_solve_seq.c global/src/ga_symmetr.c global/src/ga_trace.c
global/src/ghosts.c global/src/global.nalg.c global/src/global.npatch.c
global/src/global.periodic.c global/src/global.util.c global/src/hsort.scat.c
global/src/iterator.c global/src/sparse.array.c global/src/sketch.c global/src/mtwister.c
global/src/matmul.c global/src/matrix.c global/src/nbutil.c global/src/onesided.c
global/src/peigstubs.c global/src/sclstubs.c global/src/select.c global/src/sparse.c
global/src/thread-safe.c
pario/dra/buffers.c pario/dra/capi.c pario/dra/disk.arrays.c pario/dra/disk.param.c
pario/dra/env.c pario/dra/fortran.c pario/dra/patch.util.c pario/eaf/eaf.c pario/eaf/eaf_f2c.c
pario/elio/elio.c pario/elio/stat.c pario/sf/sf_capi.c pario/sf/sf_fortran.c
pario/sf/shared.files.c gaf2c/gaf2c.c gaf2c/drand.c tcgmsg/capi.c tcgmsg/fapi.c
tcgmsg/tcgmsg-mpi/checkbyte.c tcgmsg/tcgmsg-mpi/clustercheck.c tcgmsg/tcgmsg-mpi/collect.c
tcgmsg/tcgmsg-mpi/drand48.c tcgmsg/tcgmsg-mpi/evlog.c tcgmsg/tcgmsg-mpi/evon.c
tcgmsg/tcgmsg-mpi/llog.c tcgmsg/tcgmsg-mpi/misc.c tcgmsg/tcgmsg-mpi/niceftn.c
tcgmsg/tcgmsg-mpi/nxtval-armci.c tcgmsg/tcgmsg-mpi/p2p.c tcgmsg/tcgmsg-mpi/pbeginf.c
tcgmsg/tcgmsg-mpi/pfilecopy.c tcgmsg/tcgmsg-mpi/sizeof.c""".split()
GA_F = """ma/maf.F global/src/complex.F global/src/ga_diag_seq.F gaf2c/farg.F""".split()
LINALG = """cgemm daxpy dcabs1 dcopy ddot dgemm dgemv dger dgetf2 dgetrf dgetrs disnan dlacpy dlae2
dlaev2 dlaisnan dlamch dlanst dlansy dlapy2 dlarfb dlarf dlarfg dlarft dlartg dlascl dlaset dlasr
dlasrt dlassq dlaswp dlatrd dnrm2 dorg2l dorg2r dorgql dorgqr dorgtr dpotf2 dpotrf dscal dsteqr
dsterf dswap dsyev dsygs2 dsygst dsygv dsymm dsymv dsyr2 dsyr2k dsyrk dsytd2 dsytrd dtrmm dtrmv
dtrsm dtrsv idamax ieeeck iladlc iladlr ilaenv iparmq lsame sgemm xerbla zaxpy zgemm""".split()
GP_C = ["gparrays/src/gpbase.c", "gparrays/src/gpcapi.c", "gparrays/src/gponesided.c"]
ARMCI_C = ["comex/src-armci/%s.c" % x for x in "armci groups message iterator capi".split()]
PORTS = {
    "ts": ("src-mpi", "MPI_TS", ["comex", "groups"]),
    "pr": ("src-mpi-pr", "MPI_PR", ["comex", "groups", "reg_cache"]),
    "mt": ("src-mpi-mt", "MPI_MT", ["comex", "groups"]),
    "pt": ("src-mpi-pt", "MPI_PT", ["comex", "groups", "reg_cache"]),
    "mpi3": ("src-mpi3", "MPI3", ["comex", "groups", "reg_win"]),
}
GXX_SRC = ["ga++/src/%s.cc" % x for x in "GAServices GlobalArray PGroup init_term overload services".split()]

MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include",
           "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
MPI_LIB = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]
CODE = ["-fno-aggressive-loop-optimizations", "-fno-tree-slp-vectorize"]


def ga_inc():
    g = os.path.join(WORK, "gen")
    return ["-DHAVE_CONFIG_H", "-I" + os.path.join(CFG, "ga"), "-I" + g] + [
        "-I%s/%s" % (REPO, d) for d in
        ("ma", "LinAlg/lapack+blas", "global/src", "global/testing", "pario/dra", "pario/eaf",
         "pario/elio", "pario/sf", "ga++/src", "gaf2c", "tcgmsg", "tcgmsg/tcgmsg-mpi",
         "comex/src-armci", "gparrays/src")]


class BuildError(Exception):
    pass


def _write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def generate():
    g = os.path.join(WORK, "gen")
    os.makedirs(g, exist_ok=True)
    for rel in GENERATED:
        text = open(os.path.join(REPO, rel), errors="replace").read()
        text = re.sub(r"@(\w+)@", lambda m: SUBST.get(m.group(1), m.group(0)), text)
        _write(os.path.join(g, os.path.basename(rel)[:-3]), text)
    for rel, pre in (("global/src/ga-papi.h", ("nga", "ga")), ("gparrays/src/gp-papi.h", ("gp", "gp"))):
        src = open(os.path.join(REPO, rel), errors="replace").read().splitlines()
        p, base = pre
        w = [x.replace("PAPI", "WAPI").replace("p%s_" % p, "w%s_" % p) for x in src if "typedef" not in x]
        _write(os.path.join(g, base + "-wapi.h"), "\n".join(w) + "\n")
        d = []
        for x in src:
            x = x.replace("PAPI", "WAPIDEFS")
            x = re.sub(r"^.*p(%s_.*)\(.*$" % p, r"#define w\1 p\1", x)
            if x.startswith((" ", "/*")) or "typedef" in x:
                continue
            d.append(x)
        _write(os.path.join(g, base + "-wapidefs.h"), "\n".join(d) + "\n")


def header_hash():
    """One hash over every header (anything that is included) of REPO and of CFG."""
    h = hashlib.sha256()
    for top in (REPO, CFG):
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_build", "autom4te")) and
                             x not in ("testing", "doc", "examples", "tests"))
            for f in sorted(files):
                if f.endswith((".h", ".fh", ".xh", ".inc", ".h.in", ".fh.in")) or f == "walltime.c":
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, top).encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def _compile(job):
    src, obj, cmd, hh = job
    key = hashlib.sha256()
    key.update(hh.encode())
    key.update("\0".join(cmd).encode())
    key.update(open(src, "rb").read())
    key = key.hexdigest()
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    r = subprocess.run(cmd + ["-c", "-o", obj, src], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cannot compile %s:\n%s" % (src, (r.stdout + r.stderr)[-3000:]))
    with open(stamp, "w") as f:
        f.write(key)
    return obj


def new_sources(directory):
    """C files that were not there when build/known_sources.txt was written (a helper moved out)."""
    known = set(open(os.path.join(VERIF, "build", "known_sources.txt")).read().split())
    out = []
    top = os.path.join(REPO, directory)
    for f in sorted(os.listdir(top)) if os.path.isdir(top) else []:
        rel = directory + "/" + f
        if f.endswith(".c") and rel not in known:
            # not a file another one includes
            inc = subprocess.run(["grep", "-rlE", r'#\s*include\s+"([^"]*/)?%s"' % re.escape(f), "--include=*.c",
                                  "--include=*.h", top], capture_output=True, text=True).stdout
            if not inc:
                out.append(rel)
    return out


def _jobs(ports, flavor, hh):
    jobs, libs = [], {}
    o = os.path.join(WORK, "obj", flavor)
    extra = {"plain": [], "asan": ["-fsanitize=address,undefined", "-fno-omit-frame-pointer"]}[flavor]
    inc = ga_inc()
    # as the repository's build: GA without optimization, comex with -O2
    cc = ["gcc", "-g", "-O0", "-w", "-std=gnu17"] + CODE + extra + inc + MPI_INC
    fc = ["gfortran", "-g", "-O0", "-w", "-fdefault-integer-8", "-fallow-argument-mismatch"] + CODE + inc + MPI_INC
    ga = []
    more = [x for d in sorted({os.path.dirname(y) for y in GA_C + GP_C}) for x in new_sources(d)]
    for rel in GA_C + GP_C + more:
        ga.append((os.path.join(REPO, rel), os.path.join(o, rel[:-2] + ".o"), cc, hh))
    for rel in GA_F + ["LinAlg/lapack+blas/gal_%s.f" % x for x in LINALG]:
        opt = ["-O1"] if "LinAlg" in rel else []
        ga.append((os.path.join(REPO, rel), os.path.join(o, os.path.splitext(rel)[0] + "_f.o"), fc + opt, hh))
    libs["ga"] = [j[1] for j in ga]
    jobs += ga
    for p in ports:
        d, macro, files = PORTS[p]
        c = (["gcc", "-g", "-O2", "-w"] + CODE + extra +
             ["-DHAVE_CONFIG_H", "-DCOMEX_NETWORK_%s=1" % macro, "-I" + os.path.join(CFG, "comex"),
              "-I%s/comex/src-common" % REPO, "-I%s/comex/src-armci" % REPO, "-I%s/comex/%s" % (REPO, d)] + MPI_INC)
        cj = [(os.path.join(REPO, "comex", d, f + ".c"), os.path.join(o, "comex-" + p, f + ".o"), c, hh) for f in files]
        cj += [(os.path.join(REPO, f), os.path.join(o, "comex-" + p, "armci-" + os.path.basename(f)[:-2] + ".o"), c, hh)
               for f in ARMCI_C]
        cj += [(os.path.join(REPO, f), os.path.join(o, "comex-" + p, "new-" + f.replace("/", "-")[:-2] + ".o"), c, hh)
               for f in new_sources("comex/" + d) + new_sources("comex/src-armci") + new_sources("comex/src-common")]
        libs[p] = [j[1] for j in cj]
        jobs += cj
    return jobs, libs


def build(ports=("ts", "pr"), flavor="plain"):
    """Returns {"ga": libga.a, port: libcomex.a ...}."""
    generate()
    hh = header_hash()
    jobs, libs = _jobs(ports, flavor, hh)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        changed = {x for x in ex.map(_compile, jobs) if x}
    out = {}
    for name, objs in libs.items():
        lib = os.path.join(WORK, "lib", flavor, "lib%s.a" % name)
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        if not os.path.exists(lib) or changed & set(objs):
            if os.path.exists(lib):
                os.remove(lib)
            r = subprocess.run(["ar", "crs", lib] + objs, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr)
        out[name] = lib
    return out


def _hash_files(paths, words):
    h = hashlib.sha256(" ".join(words).encode())
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()


def link(sources, name, port, libs, flavor="plain", comex_only=False, cxx=False, defs=(), wraps=()):
    """Compiles and links a driver of /verif/drivers against one port; returns the program."""
    exe = os.path.join(WORK, "bin", flavor, "%s-%s" % (name, port))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    src = [os.path.join(VERIF, "drivers", s) for s in sources]
    extra = {"plain": [], "asan": ["-fsanitize=address,undefined"]}[flavor]
    cmd = [("g++" if cxx else "gcc"), "-g", "-O1", "-w"] + extra + list(defs) + ["-DPORT_" + port.upper()]
    cmd += ga_inc() + ["-I%s/comex/src-common" % REPO, "-I" + os.path.join(VERIF, "drivers")] + MPI_INC
    # a fake host per rank, when VERIF_NODES asks for several nodes on this machine
    wrap = ["-Wl,--wrap=gethostname,--wrap=__gethostname_chk,--wrap=gethostid"]
    wrap += ["-Wl,--wrap=" + w for w in wraps]
    tail = ([] if comex_only else [libs["ga"]]) + [libs[port]] + ([] if comex_only else [libs["ga"], libs[port]])
    tail += MPI_LIB + ["-lgfortran", "-lquadmath", "-lpthread", "-lrt", "-lm"]
    inputs = src + [os.path.join(VERIF, "drivers", f) for f in sorted(os.listdir(os.path.join(VERIF, "drivers")))
                    if f.endswith(".h")] + [x for x in tail if x.endswith(".a")]
    words = cmd + wrap + tail
    key = _hash_files(inputs, words + [header_hash()])
    if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key:
        return exe
    gxx = []
    r = subprocess.run(cmd + ["-o", exe] + src + gxx + wrap + tail, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cannot link %s:\n%s" % (name, (r.stdout + r.stderr)[-4000:]))
    with open(exe + ".key", "w") as f:
        f.write(key)
    return exe


if __name__ == "__main__":
    try:
        for k, v in build(sys.argv[1:] or list(PORTS)).items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
