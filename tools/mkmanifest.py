import json
T={
"C01":"runtime monitoring: reference encoder/decoder oracle on generated modules",
"C02":"runtime monitoring: fault injection with a reference decoder's fault set as oracle",
"C03":"runtime monitoring: differential observation of both byte orders",
"C04":"runtime monitoring: header oracle over exhaustive tool ids and header-word sweeps",
"C05":"runtime monitoring: recorded call log of instruction sets checked against a binding model",
"C06":"runtime monitoring: printed text checked against an independent disassembler",
"C07":"runtime monitoring: conservation and order checker on logical modules",
"C08":"runtime monitoring: layout-grammar recogniser as oracle on edited instruction lists",
"C09":"runtime monitoring: generated structured programs compared with the recovered structure",
"C10":"runtime monitoring: path-equivalence checker on recovered structures",
"C11":"runtime monitoring: hostile and long inputs under panic, stack and CPU watch, AddressSanitizer and Miri",
"C12":"runtime monitoring: printed control flow checked against an independent printer",
"C13":"runtime monitoring: result digests across histories, threads and processes; ThreadSanitizer and Miri",
"C14":"runtime monitoring: counting allocator around each call",
"C15":"runtime monitoring: equality and clone monitors on one-leaf-different pairs; AddressSanitizer and Miri",
"C16":"runtime monitoring: fault injection into structured functions with the injected fault as oracle",
"C17":"runtime monitoring: scripted instruction sets call the operand readers; each answer checked against a reference decoder",
"C18":"runtime monitoring: writer faults injected at every write of the printed text",
"C19":"runtime monitoring: thread CPU time per word of each stage at two sizes",
"C20":"runtime monitoring: end-to-end oracle from generated binaries to printed functions",
}
N="Observed on every case of the run, none of it enumerated completely unless the evidence says so. Trusts the harness's specification tables and reference models."
X={"C19":" Proportional cost measures a growth factor of about 1 to 2.5, quadratic cost 32; the alarm is at 8, on the best of up to seven measurements.","C04":" All 65,536 tool ids are tried on every run.","C10":" All block graphs of up to three blocks (restricted merges) and every decision sequence of each recovered structure are covered on every run.","C11":" Assumes an optimised build; a case that uses 30 s of CPU time (60 s when run again alone) counts as not ending.","C14":" Thresholds are about ten times the measured use; one known finding (shared arms) is excluded by its shape.","C13":" Interleavings are those the scheduler and Miri produced; the code shares no state, so the race detectors' silence is the evidence."}
json.dump(dict(version=1,setup_cmd="python3 run.py setup",hooks=dict(guard="none",enable="no hooks: everything the checks need is public API",source_commits=[]),
 checks=[dict(property=p,quick_cmd="VERIF_TIER=quick python3 run.py check "+p,thorough_cmd="VERIF_TIER=thorough python3 run.py check "+p,
   evidence_file="evidence/%s.json"%p,technique=T[p],level="exploration",level_note=N+X.get(p,"")) for p in sorted(T)],
 not_applicable=[],notes="Replay any reported case with: python3 run.py replay <file>"),open('/verif/MANIFEST.json','w'),indent=1)
