"""Writes MANIFEST.json. Run after changing the list of properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "reference-model monitor: the real operation and a plain 2-D table run side by side, every element compared"
NUM = "monitored execution with numerical oracle: the result is judged against its definition with rigorous-style rounding bounds in extended precision"
T = {
 "C01": (REF + "; random histories of 40+ operation kinds, poisoned heap", "exact oracle, no tolerance"),
 "C02": (REF + "; tagged elements, all access routes", "exact oracle, no tolerance"),
 "C03": (REF + "; tagged elements so each position is traceable; every small shape, every block", "exact oracle; small shapes enumerated, larger sampled"),
 "C04": ("recording element type logs every arithmetic call of the real code; formula trees compared with the definition, forms compared bit by bit", "exact oracle"),
 "C05": ("recording and exact element types (free ring, big integers mod primes), double-double oracle for floats", "exact for rings; floats up to the k-term bound with a factor for other summation orders"),
 "C06": ("refusal monitor: enumerated and generated ill-formed requests must panic; state before and after compared; both overflow-check configurations", "each refusal class enumerated around its boundary"),
 "C26": ("generated programs with an evaluation log: values, order and counts of element expressions checked against the generator's prediction", "programs in four editions; expression kinds listed in evidence"),
 "C20": ("monitored scalar counts every arithmetic operation of the real decomposition and enforces a step budget; bounded progress instead of termination", "a budget of steps, not wall clock; the observed maximum is recorded"),
 "C21": ("poisoning allocator with differing fill patterns and drop-counting elements, AddressSanitizer on every workload, Miri on reduced workloads, concurrent callers compared with a lone one", "no undefined behaviour on the executions counted; MemorySanitizer not usable (std not instrumented)"),
 "C22": (NUM, "definitions evaluated in double-double"),
 "C23": ("reference-model monitor: the definition evaluated on every pair; single-element perturbations around the tolerance", "exact oracle; the tolerance boundary probed to one unit in the last place"),
 "C24": ("parser-call log compared with an independent field splitter over generated files; kernel-level faults (directories, missing files, bad UTF-8)", "exact oracle"),
 "C25": ("reference formatter; failing and short writers injected at every byte; standard output of a child process captured", "exact oracle"),
 "C27": ("differential monitor: independent routes of the library compared, bound from the condition number known by construction", "agreement up to rounding, not correctness of either route (the other properties do that)"),
 "C28": ("draw-counting generator behind the element type; value, independence and moment statistics with a fixed false-alarm rate below 1e-9", "statistics can only refute gross dependence"),
}
checks = []
for i in range(1, 29):
    p = "C%02d" % i
    tech, note = T.get(p, (NUM + ", over structured, graded, degenerate and random matrices in f32 and f64", "bounds are a few times first-order rounding theory; violations smaller than that go unseen"))
    checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + tech, "level": "exploration",
                   "level_note": "Held on the executions counted in the evidence file, nothing more. " + note[0].upper() + note[1:] + ". Trusts rustc, std, num, rand and the harness's own models."})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: monitors observe through generic element types, a poisoning global allocator, sanitizer builds and Miri. Known findings and fixes: known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
