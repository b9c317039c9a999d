#!/usr/bin/env python3
# writes MANIFEST.json; run from anywhere
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="deterministic simulation with fault injection: "
ASSUME=" Assumes the reference model in /verif/sim/ref states the EOSIO format correctly and that the Go compiler and runtime behave; the code under test is the real code of /repo, woven with yields at build time."
C=[
("C01","seeded stream deliveries (fragmentation, empty reads, data with EOF, stalled peer) against a reference decode","Every run decodes the same bytes under many deliveries and compares value, error and bytes taken with the reference model."),
("C02","seeded truncation, transient and permanent read errors at seeded offsets, decoder reused afterwards","Every fault offset of small messages is likely to be drawn, those of large ones are sampled."),
("C03","seeded writer failures (refused, partly accepted, accepted and reported failed; once or for good), encoder reused afterwards","Checks what the writer accepted byte by byte against the reference encoding."),
("C04","seeded corruption of messages and ABI definitions, with a step budget, an allocation budget and a reference decoder","Crash, hang and blow-up are decided by recover, by counted statements and by bytes allocated; values by the reference decoder."),
("C05","two simulated parties over simulated links (latency, windows, partitions, cuts) with virtual time, typed and ABI codecs mixed","History check: what arrived against what was sent, bytes on the wire against the reference encoding, progress after the last fault."),
("C06","seeded histories of decodes and parses into one destination with cuts, corruption and read errors in between","Differential: used destination against a fresh one."),
("C07","seeded statement-level preemption of concurrent calls, results against serial execution, inputs compared before and after, under the race detector","One goroutine runs at a time, so runs replay exactly; hand-overs are hidden from the race detector so that it still sees unsynchronised accesses."),
("C08","seeded histories of writes, sums, resets and copies from failing streams on several hashers and preempted tasks, against a reference RIPEMD-160","Includes two fixed runs with messages beyond 2^29 and 2^32 bytes."),
("C09","seeded damage of texts (typos, tears, splices, forgeries with valid checksums of other types) against reference parsers","Decides acceptance and value by an independent statement of the text rules."),
("C10","seeded re-encoding histories: maps refilled under other hash seeds, used encoders, failures, values changed in place, preempted tasks","Map iteration order is put under the seed by a build-time replacement of the runtime's random source for maps where the toolchain allows it."),
("C11","custom functions and user marshalers as simulated parties that decline, take over or fail at seeded calls, against a reference with the same substitutions","Every consultation is recorded and compared with the values of the message."),
("C12","generated code compiled into the simulator and run beside the built-in codec on the same simulated streams and writers","The family of structs is generated from the seed; the generator is the real one from /repo."),
("C13","seeded histories of edits, upgrades, transfers and calls over several ABI definitions, against an independent resolver of the definition as it is at the call","Includes calls made from inside a running call."),
("C14","a writer and a reader of JSON documents on a simulated link (fragmentation, delay, partition, cut) in seeded time zones, documents also as a node writes them or damaged, against a reference JSON form","Documents come from own values, decoded values and ABI-decoded trees; damaged ones are decided by stability of what was accepted."),
("C15","parties with skewed, drifting, jumping clocks in seeded time zones stamp messages that others read over simulated links, against integer arithmetic","The library reads no clock itself: the clock readings it is given, the zone and the link are simulated."),
("C16","long seeded histories of ever new and failing calls on long-lived and per-call objects, with live heap, statements of a fixed call and goroutines measured over growing windows","A window is suspicious if it grows in proportion to its calls; only growth in every one of five windows (65000 calls) is a violation, so that bounded tables and noise are not."),
("C17","seeded stalls, nested calls and panics inside readers, writers, functions and methods of the caller, while other preempted tasks call on the same objects","A task that can never continue is found by the scheduler (cooperative locks) or by the runtime's deadlock detection (channels)."),
]
import importlib.util
claimed=set(l.strip() for l in open(V+"/tools/claimed.txt"))
checks=[dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",evidence_file=f"evidence/{p}.json",technique=T+t,level="exploration",level_note=n+ASSUME) for p,t,n in C if p in claimed]
PURE="a pure function of one argument: no schedule, time, I/O, fault or history for a simulator to control; deciding it is input enumeration or proof, which is another technique."
na=[dict(property=p,reason=r) for p,r in [
("C20","Name conversion is "+PURE+" (Names in exchanged JSON documents are covered by C14.)"),
("C21","Asset and symbol conversion is "+PURE+" (Damaged texts of these types are covered by C09, exchanged ones by C14.)"),
("C23","Number conversion is "+PURE+" (Damaged texts are covered by C09, exchanged ones by C14.)"),
("C24","Base58 is "+PURE+" (Damaged texts are covered by C09.)"),
]]
na+=[dict(property=p,reason="not built yet") for p,_,_ in C if p not in claimed]
m=dict(version=1,setup_cmd="./check.sh build",
 hooks=dict(guard="none in /repo: the yields are woven into a build-time copy (go build -overlay), so the shipped sources carry no hooks",enable="check.sh runs cmd/weave on /repo's current sources and builds the simulator with -overlay (and -tags simmaps for the map seed)",source_commits=[]),
 checks=checks,not_applicable=na,
 notes="VERIF_SEED selects the search; ./check.sh replay FILE reproduces a violation exactly. See DESIGN.md.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
