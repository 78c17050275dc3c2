#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("A violation is reported only with a reproduced failing run; silence means the monitors saw none on the generated executions. Trusts the "
        "interposition layer, the reference models in lab/, gcc's sanitizers and the loopback server. ")
T = {
    "C01": ("exploration", "offline re-hash of targets after runs against hostile stores, injected read glitches and changing stores, under ASan+UBSan", ""),
    "C02": ("fault_enumeration", "online log of target writes plus byte-wise old-or-prescribed oracle, kills and faults at enumerated writes", "Kills are SIGKILL at system-call boundaries or after partial writes; no power failure."),
    "C03": ("exploration", "reference simulation demands success while other stores misbehave", ""),
    "C04": ("exploration", "request-log oracle on the fallback server against a discard-and-rescan simulation", ""),
    "C05": ("exploration", "differential run against an independent casync chunker and casync itself, with perturbed reads", ""),
    "C06": ("fault_enumeration", "kill enumeration and rerun, monitors on requests and target writes", "Kills are SIGKILL at system-call boundaries or after partial writes; no power failure."),
    "C07": ("exploration", "request logs of several servers against a reference simulation of the store chain", ""),
    "C08": ("fault_enumeration", "scripted per-attempt libcurl outcomes, logged attempts and waits against a reference model", "Attempt outcomes are forced at the libcurl boundary; some real refused, slow and stalled connections."),
    "C09": ("exploration", "metamorphic runs over forced segmentations with whole-body zstd as oracle, under ASan+UBSan", ""),
    "C10": ("exploration", "differential runs against an independent XChaCha20, under forced segmentations", ""),
    "C11": ("fault_enumeration", "output files against an independent XChaCha20, snapshots, injected write faults and kills", ""),
    "C12": ("exploration", "strict key grammar as oracle, scan of all outputs and requests for key text", ""),
    "C13": ("exploration", "field-wise index mutation against an independent parser", ""),
    "C14": ("exploration", "structured fuzzing of all inputs and command lines under ASan+UBSan, valgrind memcheck on a part", ""),
    "C15": ("fault_enumeration", "fault at each I/O position (short, EINTR, EIO, ENOSPC, early EOF), comparison with the undisturbed run", ""),
    "C16": ("fault_enumeration", "emulated AF_ALG socket with failures at each send and receive, comparison with software hashing", "The kernel interface is emulated at the libc boundary as the kernel documents it; the sandbox has no AF_ALG."),
    "C17": ("fault_enumeration", "write and sync log plus byte-wise oracle, kills and faults at enumerated operations", "Kills are SIGKILL at system-call boundaries; durability is judged by the order of write and sync calls."),
    "C18": ("exploration", "directory snapshots (names, contents, sizes) around runs of every kind", ""),
    "C19": ("exploration", "paired runs of casync and csn, malformed command lines", ""),
    "C20": ("exploration", "peak resident memory and descriptor counts over scaled workloads", ""),
    "C21": ("exploration", "paired runs against block devices emulated at the libc boundary", "Devices are emulated (size, mode, write limit); the sandbox has no block devices."),
    "C22": ("exploration", "paired runs over log levels, terminals, full and closed outputs; parser for the progress display", ""),
    "C23": ("exploration", "TLS servers with certificates of every kind, request logs and outcomes against a reference simulation", "The system trust store is replaced by a run-specific authority at the libcurl boundary."),
}
NA = []
have = [k for k in T if os.path.exists(os.path.join(V, "lab/checks/%s.py" % k.lower()))]
m = dict(version=1, setup_cmd="python3 -m lab.build", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA],
         notes="No hooks in /repo: the checks build the unmodified sources and interpose with the linker's --wrap. "
               "python3 run.py CHECK --replay FILE repeats a reported case.")
for k in T:
    if k in have:
        lv, te, no = T[k]
        m["checks"].append(dict(property=k, quick_cmd="python3 run.py %s --tier quick" % k, thorough_cmd="python3 run.py %s --tier thorough" % k,
                                technique="runtime monitoring: " + te, level=lv, level_note=(NOTE + no).strip()))
    else:
        m["not_applicable"].append(dict(property=k, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
