"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Assumes the layout model in mon/src/model.rs (written from the OpenGL 4.6 specification, 7.6.2.2) and rustc; "
T = {
 "C01": ("runtime monitor: offsets observed by encoding, against a model of the std140 rules, over generated programs",
         "Every ordered pair of field types and many shapes per program; shapes not generated are not covered."),
 "C02": ("runtime monitor: offsets observed by encoding, against a model of the std430 rules, over generated programs", "As C01."),
 "C03": ("runtime monitor: every encoded component compared bit for bit with the model's image", "Sampled component values incl. boundary bit patterns, all types."),
 "C04": ("runtime monitor: padding bytes and repeated and concurrent encodings over poisoned memory", "Sampled values; reads of uninitialised memory as such are C17's (Miri, valgrind)."),
 "C05": ("runtime monitor: round trip compared component by component", "Sampled values of all types and generated structs."),
 "C06": ("runtime monitor: decoding of arbitrary bytes compared with the model's reading", "Sampled byte strings with arbitrary padding and boolean words."),
 "C07": ("differential runtime monitor across math libraries", "Sampled values, all types of all four libraries and the crate's primitives."),
 "C08": ("runtime monitor: online model of the output stream checked after each operation", "Random histories, all ordered pairs of shapes, all start offsets modulo the alignment, outputs past 4 GiB."),
 "C09": ("differential runtime monitor: sizer against writer, buffers of exact and short length", "Random sequences and all pairs of shapes; offsets beyond 4 GiB by huge user-defined types."),
 "C10": ("differential runtime monitor: slices and iterators against single writes", "Iterator kinds and lengths listed in mon/src/props/ops.rs."),
 "C11": ("runtime monitor: stride and start of written slices against GLSL array rules", "Nine known findings: std140 elements of scalar and two-component vector types are written at their own stride, not 16."),
 "C12": ("fault injection at every byte of recorded histories, with a monitor of the sink's event log", "Each history is enumerated completely over fault bytes (and over fault kinds at operation starts); histories are sampled."),
 "C13": ("runtime monitor: all size queries against bytes emitted", "All types, sampled slices and user-defined writable values."),
 "C14": ("differential runtime monitor: wrapped against unwrapped values", "All types of the library wrapped once, some twice, and as fields of generated structs."),
 "C15": ("runtime monitor: generated text parsed by independent grammars (own tokenizer, naga) against the declaration", "Generated structs only."),
 "C16": ("execution of generated shaders on a software GPU (lavapipe), memory monitored against the model", "Generated structs, booleans read as words, without two-row matrices in std140 (naga rejects them); trusts naga and lavapipe, gated by comparing naga's offsets with the model."),
 "C17": ("Miri on three targets, AddressSanitizer, MemorySanitizer, ThreadSanitizer and valgrind over the monitors' workloads, threads first", "No UB on the executed workloads; Miri sees uninitialised reads, invalid values, misalignment and races, on x86-64, i686 and s390x; MemorySanitizer and ThreadSanitizer see uninitialised reads and races at native scale."),
 "C18": ("differential runtime monitor: dumps of layouts and bytes across feature sets, profiles and targets", "All single-library feature sets, none, std and all; debug and release natively, i686 and s390x interpreted."),
 "C19": ("generated declarations compiled and run; rejected declarations compiled for failure", "A catalogue of declaration forms and generated field counts and names."),
}
have = [p for p in T if os.environ.get("ONLY") is None or p in os.environ["ONLY"].split(",")]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
   "evidence_file": f"evidence/{p}.json", "technique": T[p][0],
   "level": "fault_enumeration" if p == "C12" else "exploration",
   "level_note": TRUST + T[p][1]} for p in have],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in T if p not in have],
 "notes": "No hooks in /repo: the monitors observe public interfaces only. See DESIGN.md; known_findings.txt lists findings and repairs.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
