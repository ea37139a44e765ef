#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
TECH="deterministic simulation with fault injection: "
COMMON=" Sampled, not exhaustive: every run is a pure function of its seed; failures are minimised and replayable. Trusts: sequentially consistent interleavings at the decoder's synchronisation points; files from the repository's corpus, a lossless file generator and corruptions of both."
C={
"P01":("seeded deliveries, short reads and source behaviours; differential oracle against a whole-slice decode","Any difference of events, pixels or metadata between a split/odd delivery and the plain decode is a violation."),
"P02":("seeded thread schedules (shuttle seam) and simulated parallel runners; sequential decode as oracle","Byte equality with the sequential decode, no panic, deadlock or error on any explored schedule."),
"P03":("seeded flush points, refused flushes and schedules; decode without flushes as oracle","Final pixels with flushes equal those without."),
"P04":("seeded flush histories replayed under other schedules, buffers and API variants; reports checked against byte diffs","Flush reports are checked against actual buffer changes, and reproducibility across executions of the same history."),
"P05":("seeded corruption, deliveries, schedules and API call sequences; no-panic/bounded-work monitor and cross-delivery agreement","Clean failure (error, more input or success) within a step and memory budget for each run."),
"P06":("seeded truncation points and resume histories; prefix oracle and bounded-progress check","Exactly the complete frames are reported on a prefix; a caller delivering the hinted bytes finishes in a bounded number of calls."),
"P07":("seeded input-source faults (transient, permanent, at any call, errors and short counts); never-wrong-data oracle, retry oracle","A failing source gives an error or, if nothing was lost, exactly the right result; a retry after a transient fault resumes exactly."),
"P08":("seeded play/skip/seek histories over scanned animations; sequential playback as oracle","Each frame shown after a seek equals that frame in sequential playback, when the input continues at the stated offset."),
"P09":("seeded skip/scan histories under split deliveries; full decode as oracle","Decoded frames and the frame list do not depend on what was skipped or only scanned."),
"P10":("seeded packagings (bare, jxlc, jxlp in or out of order, foreign boxes, size encodings) and deliveries; bare codestream as oracle","Same image, frames and mapped offsets for every packaging."),
"P11":("canary-guarded buffers with random strides, prefill and padding; byte-exact coverage monitor under seeded schedules","All row bytes written, none outside, regardless of prior contents and layout."),
"P12":("counting allocator in the simulation; per-step memory bounds as invariants","Heap in use is compared with a bound in bytes delivered and samples declared, at every suspension."),
"P13":("allocation failures injected at seeded points of the decode; error-not-crash and recovery oracle","An injected failure of a pixel/coefficient/section allocation yields an error, no panic, leak or wrong completion."),
"P14":("runner faults (refused jobs, lost workers, late failures) at seeded jobs and schedules","A failed job is an error of the call in progress, never a completed frame, panic or hang."),
"P15":("several decoders interleaved call by call and thread by thread by the seeded scheduler; solo runs as oracle","Each decoder's results equal those it gives alone."),
"P16":("seeded abandonment points after any history; allocation balance, canaries and a fresh decode afterwards","Drop never panics or writes, and returns all memory."),
"P17":("seeded format changes between frames, previews, skips and seeks; decoders fixed to one format as oracle","Each frame's pixels equal those of a decoder using that format throughout."),
"P18":("simulated output device (short, interrupted and failing writes, full disk at any byte) under the CLI writers","Success is reported only when the device holds the complete correct file."),
"P19":("simulated input streams and thread schedules under the CLI decode layer; whole-file sequential decode as oracle","Same frames, metadata and saved bytes for any read pattern; errors or exactly the available frames on truncated or failing input."),
"P20":("generated animations played in seeded histories and schedules; executable reference-slot model as oracle","Every shown frame equals the model's composition."),
}
CLAIMED=os.environ.get("CLAIMED","P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20").split()
PURE="A pure function of the input bytes: no schedule, clock, fault, interleaving or call history enters it, so simulation has nothing to decide (the histories and schedules around it are P01-P20)."
NA={"P21":PURE+" It needs the specification or a reference decoder as oracle.",
    "P22":PURE+" The instruction set is chosen once per process and does not vary with schedule or fault.",
    "P23":PURE}
m={"version":1,"setup_cmd":"bash check.sh build",
"hooks":{"guard":"cargo feature `shuttle` of crate jxl (already in the repository, off by default); the hook commit extends it to override the hardware thread count",
 "enable":"/verif/sim depends on /repo/jxl with features = [\"shuttle\"]",
 "source_commits":["1d61763"]},
"checks":[],"not_applicable":[],
"notes":"Checks: bash check.sh <property> <tier>. Replays: sim/target/debug/jxlsim replay <file> (P18, P19: clisim/target/debug/clisim replay <file>). Known and fixed defects: known-findings.json."}
full=subprocess.run(["git","-C","/repo","rev-parse","1d61763"],capture_output=True,text=True).stdout.strip()
m["hooks"]["source_commits"]=[full]
for i in range(1,24):
    k=f"P{i:02}"
    if k in CLAIMED:
        t,n=C[k]
        m["checks"].append({"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough",
         "technique":TECH+t,"level":"exploration","level_note":n+COMMON})
    else:
        m["not_applicable"].append({"property":k,"reason":NA.get(k,"Its check is still being built; not claimed yet.")})
json.dump(m,open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w"),indent=1)
