import json
T = "deterministic simulation with fault injection: seeded search over schedules, fault sequences and histories against a reference model, minimised replay files"
N = {
"C01": "Sampled: contents x artifact sets x stream fragmentation x interleavings; every image and every answer is compared with the original and a sorted-map model; images of the released version are loaded too.",
"C02": "Sampled: every kind of early end (EOF, unexpected EOF, EIO, timeout, closed; with or without data) at any byte, in histories of failed and good loads into one object, under interleaving.",
"C03": "Sampled: short, refused, late-failing, full and crashing media at any byte; what reached the medium is compared with the image and loaded again.",
"C04": "Sampled schedules with preemption between any two statements of the library, checked against a map; plus race-armed runs in which the scheduler creates no happens-before edges, so any unsynchronised conflicting access is reported.",
"C05": "Sampled histories of several cursors (start, next, abandon, restart, next past the end) under interleaving; every step compared with the sorted model; step budget bounds every operation.",
"C06": "As C05 with the ranked completer; order by value is checked, order among equal values is free.",
"C07": "Sampled contents, both kinds of guide, interleaved users and reloads; every number and key compared with the model.",
"C08": "Sampled insert/refuse/repeat/finish/reuse histories over several builders and table sizes, interleaved; result of every call and the content of every built dictionary compared with the model; one run per batch has 200,000 keys (2.8 million units).",
"C09": "Sampled pairs of histories and configurations with the same final content, and concurrent derivations from one shared automaton; images compared byte by byte.",
"C10": "Sampled strings over all windows of the code, consumer aborts at any byte, nested and interleaved calls, forked states.",
"C11": "Sampled lexicons x options x faults of open, read, write, close and process death; dawgtool runs for real, with package os behind a fault-injecting shim.",
"C12": "As C11 for the load mode, with failing standard output too; the printed answers are parsed and compared with the model.",
"C13": "Sampled walks in any division, positions handed between tasks; all 256 labels are tried at sampled prefixes.",
"C14": "Sampled histories as in C08 (table sizes, growth, repeats, refusals, reuse, interleaving); states reached by walking every automaton and its reported counts compared with the minimal automaton computed from the model.",
}
m = {
 "version": 1,
 "setup_cmd": "bash run.sh setup",
 "checks": [{
   "property": k,
   "quick_cmd": f"bash run.sh check {k} quick",
   "thorough_cmd": f"bash run.sh check {k} thorough",
   "technique": T,
   "level": "exploration",
   "level_note": v + " A clean batch is evidence, not proof.",
 } for k, v in N.items()],
 "not_applicable": [
  {"property": "C15", "reason": "Needs the C++ library as reference, which is not available offline, and is a pure function of the content; compatibility with images of the released Go version is decided under C01."},
 ],
 "notes": "No hooks are committed in /repo: the checks copy the working tree to a scratch directory and insert the scheduler calls there (sim/instrument). 'bash run.sh replay FILE' executes a replay file again; 'bash run.sh selftest' proves that runs are repeatable.",
}
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
