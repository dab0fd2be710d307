#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MON = "runtime monitoring of the real crate: "
T = {
    "C01": MON + "panic/signal/overflow traps around every public call on generated hostile hives, libFuzzer with AddressSanitizer, Miri",
    "C02": MON + "access-counting byte slice with per-call budgets, item counters, logarithmic lookup budget",
    "C03": MON + "walks of generated well-formed hives compared online with the generating tree",
    "C04": MON + "lookups compared with the model's sorted list, all forms, partitions and spellings",
    "C05": MON + "subpath compared with stepwise lookup and the model",
    "C06": MON + "value lookups compared with the model and the reference reader on damaged lists",
    "C07": MON + "comparison oracle over all code units and generated names, order laws on triples",
    "C08": MON + "reference decoder compared with to_string, Display under all format options, len",
    "C09": MON + "raw data compared with the generated data in every storage form and size boundary",
    "C10": MON + "reference decoding of generated typed values compared with the accessors",
    "C11": MON + "reference line splitter compared with the iterator, segment boundaries moved through the text",
    "C12": MON + "reference header predicate, exhaustive single-bit flips, field sweeps",
    "C13": MON + "byte diff of the buffer before and after, reference set of reachable volatile counts",
    "C14": MON + "trace checker for iterator contracts over random call sequences",
    "C15": MON + "address confinement monitor and reference reader on damaged hives",
    "C16": MON + "reference reader predicting kind, offset and quantities of every error",
    "C17": MON + "repeated, reordered and concurrent queries, counting allocator, address checks, ThreadSanitizer, Miri, compile-time Send/Sync probe",
    "C18": MON + "transcripts of the same queries compared between builds, feature sets, slice types, a native 32-bit build and Miri for s390x and i686",
    "C19": MON + "equality of handles compared with record identity over all pairs of routes",
    "C20": MON + "readhive run as a process, output compared with a simulation from the reference reader",
}
NOTE = {
    "C01": "No monitored call panicked, overflowed, crashed or was reported by ASan or Miri on the generated, mutated and fuzzed inputs of the run. Trusts the traps and sanitizers; says nothing of inputs not tried.",
    "C02": "Budgets are generous multiples of what the structures need; constant-factor slowdowns below them pass.",
    "C07": "All 65536 code units are folded in every run against a table taken from an independent implementation (Unicode 13, Java 17).",
    "C12": "The single-bit flips of the first 512 bytes are exhaustive for each base header tried.",
    "C17": "Race freedom is judged on the interleavings seen by TSan and Miri and by the type system probe.",
    "C18": "Big-endian and 32-bit results come from Miri (tens of cases in the quick tier) and, for 32 bits, a native no_std build (hundreds of thousands of hives).",
}
DEF = "Held on every generated case of the run; the oracles (model tree, reference reader) were written independently of the crate. Cases not generated are not judged."
checks = []
for i in range(1, 21):
    c = f"C{i:02}"
    checks.append(dict(property=c, quick_cmd=f"python3 check.py {c} quick", thorough_cmd=f"python3 check.py {c} thorough",
                       technique=T[c], level="exploration", level_note=NOTE.get(c, "") + (" " if c in NOTE else "") + (DEF if c not in ("C01",) else "")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: everything is observed through the public interface. known_findings.txt lists the repaired defects.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
