"""Writes /verif/MANIFEST.json: every property that has a check in checks/ is claimed."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
TABLE = {
    "C01": (T + "recorded runs of the real code on every port validated against the data specification (GAData) by TLC",
            "Index arithmetic and transfer protocol models checked exhaustively for small constants; the code is bound by seeded random programs whose every observation TLC checks, so inputs outside the sampled programs are not covered."),
    "C02": (T + "contended accumulate runs on every port and transport validated by TLC",
            "Protocol models (message, shared memory, mixed, atomic accumulate) exhaustive for small constants with broken variants rejected; code bound by recorded contended runs with schedule perturbation."),
    "C03": (T + "linearizability of recorded read-and-increment histories decided by TLC",
            "RMW protocol model exhaustive for small constants; recorded concurrent histories with real-time stamps on every port."),
    "C04": (T + "recorded lock histories checked by TLC for mutual exclusion, FIFO-free progress and independence",
            "Lock-queue model exhaustive (safety and liveness) for small constants; recorded contended runs on every port."),
    "C05": (T + "litmus programs with recorded outcomes checked against the visibility specification by TLC",
            "Transfer/fence models exhaustive for small constants with broken variants; recorded litmus runs with perturbed schedules."),
    "C06": (T + "recorded barrier histories with global time stamps checked by TLC",
            "Barrier model exhaustive for small constants; recorded runs on every port, groups included."),
    "C07": (T + "recorded answers of every distribution query checked by TLC against the distribution specification",
            "Distribution functions checked exhaustively for small constants; recorded queries over seeded random arrays."),
    "C08": (T + "recorded create/destroy/duplicate histories with memory limits checked by TLC against the lifecycle specification",
            "Lifecycle model exhaustive for small constants; recorded histories on every port."),
    "C09": (T + "recorded group histories checked by TLC against the group specification",
            "Group model exhaustive for small constants; recorded histories with nested and overlapping groups."),
    "C10": (T + "recorded reductions and broadcasts checked by TLC",
            "Reduction algorithm models exhaustive for small constants; recorded runs with sizes around every internal buffer boundary."),
    "C11": (T + "recorded element-wise and patch operations checked by TLC against their definition",
            "Definitions enumerated on small arrays; recorded runs over all distributions and types."),
    "C12": (T + "recorded matrix operations checked by TLC against their definition",
            "Integer-valued matrices so results are exact; recorded runs over all distributions."),
    "C13": (T + "recorded ghost updates checked by TLC against the periodic neighbour specification",
            "Recorded runs over dimensions, widths and distributions; update-by-shift model exhaustive for small constants."),
    "C14": (T + "recorded enumerate/scan/pack/bin/select operations checked by TLC against their definition",
            "Definitions checked on small vectors; recorded runs over distributions and types."),
    "C15": (T + "recorded sparse assemblies and products checked by TLC against the sparse specification",
            "Recorded runs; integer values so results are exact."),
    "C16": (T + "recorded allocator histories checked by TLC against the allocator specification",
            "Allocator design model exhaustive for small constants; recorded random histories of the real allocator."),
    "C17": (T + "recorded disk-array histories checked by TLC against the array specification",
            "Recorded runs over dimensions, requests and layouts, including reopened files."),
    "C18": (T + "recorded file histories checked by TLC against the byte-file specification",
            "Recorded histories of EAF and SF calls, synchronous and asynchronous."),
    "C19": (T + "recorded ComEx/ARMCI transfers on every port checked by TLC against the byte-memory specification",
            "Recorded direct strided, vector and contiguous transfers with guard bytes."),
    "C20": (T + "recorded TCGMSG histories checked by TLC against the channel specification",
            "Recorded runs of typed messages, probes, broadcast, global operations and counters."),
    "C21": (T + "recorded runs with and without the properties checked by TLC against the same data specification",
            "Recorded runs with mirrored, read-only and cached arrays on several fake nodes."),
}
checks, na = [], []
NOT = {}
p = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(p):
    NOT = json.load(open(p))
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i not in NOT:
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "technique": TABLE[i][0], "level": "model_checking", "level_note": TABLE[i][1]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 lib/gabuild.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
