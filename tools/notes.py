NUM = "runtime monitoring: seeded workload on a deterministic task scheduler, extended-precision reference oracle entry by entry"
TECH = {"C%02d" % i: NUM for i in range(1, 15)}
TECH.update({
 "C15": "runtime monitoring: round trips and an address oracle over descriptors, guard zones",
 "C16": "runtime monitoring: guard zones, byte-level frame oracle, differential runs over unreferenced content",
 "C17": "runtime monitoring: one wrong argument at a time, return code and no-effect oracle",
 "C18": "runtime monitoring: workload with empty dimensions, definition oracle",
 "C19": "runtime monitoring: injected numerical breakdown at a known position, return-code oracle",
 "C20": "runtime monitoring: chained asynchronous calls under random schedules against the synchronous calls; fault propagation",
 "C21": "determinacy-race detector: access instrumentation, happens-before clocks of the OpenMP task graph",
 "C22": "runtime monitoring: differential execution over schedules, thread counts and preemption, bitwise",
 "C23": "runtime monitoring: scheduler with deadlock detection under panel and thread configurations",
 "C24": "AddressSanitizer and UndefinedBehaviorSanitizer, kernel operand region monitor",
 "C25": "runtime monitoring: allocation table around init ... finalize",
 "C26": "fault injection: failing allocation at every class of position, status, leak and recovery oracle",
 "C27": "runtime monitoring: differential runs over the content of fresh memory",
 "C28": "runtime monitoring: histories of settings against a model; logged queries of the tuning script; differential runs over ways of setting, bitwise",
 "C29": "runtime monitoring: differential runs over call histories",
 "C30": "runtime monitoring: trace checker over the recorded reduction operations",
})
NOTE = {"*": "seeded exploration with monitors; nothing is proved beyond the cases run"}
NOTAPP = {"C31": "no Fortran compiler and no GPU or Fortran build in this sandbox: there is no execution to monitor"}
