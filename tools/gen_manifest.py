#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run from /verif; not used by any check)."""
import json
FOLD="runtime monitoring: every loaded result is compared, online, with a reference model folded over the generated statements"
META="runtime monitoring: metamorphic monitor over pairs of loads"
BASE="Exploration: held on the executions counted in the evidence, nothing is proved for others. Trusts the generators' idea of what a text says (one reference model of about 700 lines for OBJ and MTL) and rustc with debug assertions and overflow checks on."
T={
"C01":("runtime monitoring: hostile and exhaustively enumerated short texts under a panic hook, overflow checks, CPU clock, memory limit and process supervision",
 "Exploration, exhaustive for texts of 4 (thorough 6) of 12 letters and for 2 (thorough 3) of 47 fragments. A hang is judged by 60 s of CPU time on texts that need milliseconds, confirmed alone within 150 s. Stack depth is that of an ordinary thread."),
"C02":("runtime monitoring: digests of results compared across histories, addresses, threads, log levels and processes with other environments",
 "Exploration. Environments, directories and histories are sampled, as are thread interleavings (whatever the scheduler gives)."),
"C03":("runtime monitoring: loads under a seccomp system call filter that traps everything but memory management",
 "Exploration. Any system call of a load beyond anonymous memory, locks, clock, process id and random numbers is seen by the kernel; controls show that the filter traps. Paths the texts do not drive are not covered."),
"C04":("runtime monitoring: instruction counts (cachegrind) and a counting allocator at doubling sizes",
 "Exploration over about 80 families of growing texts and seeded random blocks. Counts instructions and bytes, not time, so the verdict does not depend on the load of the machine; tells linear from quadratic growth, not n from n log n."),
"C05":("sanitizers: AddressSanitizer, ThreadSanitizer, Miri (thorough: also MemorySanitizer) and a leak-balancing allocator over single and concurrent loads",
 "Exploration. A clean sanitizer run is no proof of memory safety; Miri sees only short texts. The library has no unsafe code of its own today, the monitors are there for changes that add some."),
"C06":("runtime monitoring: valid texts must load with every statement accounted for, the same texts with one bad statement at a random position must be errors of the right kind",BASE),
"C07":(FOLD,BASE),
"C08":("runtime monitoring: loaded numbers are compared bit by bit with the correctly rounded value of the written literal, cross-checked by exact integer arithmetic",BASE+" The standard library's f32 parser is trusted only as far as the exact arithmetic confirms it, which is for every literal generated for vertices."),
"C09":(FOLD,BASE),
"C10":("runtime monitoring: exactly-once and ordering monitor over uniquely numbered elements and group histories",BASE),
"C11":(FOLD,BASE),
"C12":(FOLD,BASE),
"C13":(FOLD,BASE),
"C14":(META+" of the same statements in different layouts",BASE),
"C15":(META+": prefixes, concatenations, moved and removed statements",BASE),
"C16":("runtime monitoring: ownership monitor over uniquely numbered material statements",BASE),
"C17":(FOLD+"; and against the same text without one property",BASE),
"C18":(FOLD+"; and against the same text without one property",BASE),
"C19":(FOLD+"; every option with every map in turn",BASE),
"C20":(META+": layouts, exchanged, overwritten and concatenated statements",BASE),
"C21":("runtime monitoring: every name in the result is compared, byte for byte, with the generated one",BASE),
"C22":("runtime monitoring: constructors, conversions, clones and comparisons of seeded values checked against each other",BASE),
}
checks=[{"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {p}","technique":t,"level":"exploration","level_note":n} for p,(t,n) in T.items()]
json.dump({"version":1,"setup_cmd":"./run.sh build","checks":checks,"not_applicable":[],"notes":"No hooks: everything the monitors need can be seen at the public interface. Seeds and tier: VERIF_SEED, VERIF_TIER. Replay files name the command that loads a case again."},open("MANIFEST.json","w"),indent=1)
