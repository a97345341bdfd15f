#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
SEQ = "exhaustive bounded enumeration of input streams and operation sequences, run on the real code in lock step with a reference model"
T = {
 "C01": (SEQ, "Complete for all streams of up to 5 (6) fragments out of 17, all byte strings up to 9 (11) over two small message types, every value of every header byte, buffers of more than 4 GiB, every start offset, every announced length 0..65535."),
 "C02": (SEQ, "As C01, for the forward marker search."),
 "C03": (SEQ, "As C01, for the backward marker search."),
 "C04": ("exhaustive enumeration of the whole header-flag / length / alignment state space against a field-layout model", "Complete for all 256 header types, tail lengths 0..40 (300) and selected longer ones, 8 alignments."),
 "C05": ("exhaustive enumeration of the complete domain (256 bytes, 38 type combinations) against the specification table", "Complete: the domain is finite and fully enumerated."),
 "C06": ("exhaustive enumeration of header field domains against the wire-format model", "Complete for header types, counters and lengths; boundary values for times and ids."),
 "C07": (SEQ + ", every partition count", "Complete for all small streams and all partition counts; maximum-size and long overlapping streams enumerated from a grid."),
 "C08": (SEQ + ", every partition count", "Complete for all small streams and all partition counts; maximum-size and long overlapping streams enumerated from a grid."),
 "C09": (SEQ + ", every admissible partition count", "Complete for all periodic streams of small messages within the bounds."),
 "C10": (SEQ + ", every byte range", "Complete for all small streams and all ranges; maximum-size and long overlapping streams enumerated from a grid."),
 "C11": (SEQ, "Complete for all streams of the explored fragments and all patterns of the list; the reference decides every message of the reader's partition on its own."),
 "C12": (SEQ, "As C11, with a non-capturing oracle for every captured message, field and byte range."),
 "C13": ("exhaustive enumeration of all relations over small domains and all input sequences, against maximal runs", "Complete for all relations over 2, 3 and 4 values and all sequences within the depth bound, pushed and pulled."),
 "C14": ("exhaustive enumeration of all input sequences over small join-semilattices, against the closure under merging", "Complete for all sequences within the depth bound over the listed alphabets, pushed and pulled."),
 "C15": ("exhaustive enumeration of pipelines (all stage chains and reducers) and input sequences, against stage-by-stage list functions", "Complete for all chains within the length bound, statically typed and boxed, and all inputs within the depth bound."),
 "C16": ("exhaustive enumeration of pipelines and input sequences, pulled in lock step with the pushed pipeline", "Complete for all chains and inputs within the bounds."),
 "C17": ("exhaustive enumeration of file sizes, access methods and sets of open buffers on the real code", "Complete for the enumerated sizes; every size up to 300 (5000) and around powers of two."),
 "C18": ("stateless exploration of all outcomes of the read calls of the real program under a controlled fault injector, bounded by the number of deviating calls", "Complete for at most 3 (4) deviating calls anywhere in the execution, and for persistent deviations with one failing call anywhere."),
 "C19": ("exhaustive bounded enumeration of files, run through the real program and compared with a reference model", "Complete for all files of the explored fragments, all header types, all message info bytes and the enumerated sizes, both access methods."),
 "C20": ("exhaustive bounded enumeration of message histories, run through the real program and compared with a reference model", "Complete for all message sequences over the listed times and ECUs within the depth bounds, both access methods."),
 "C21": ("exhaustive bounded enumeration of files, run through the real program and compared with a reference model", "Complete for all files of the explored fragments, every position of an occurrence in a message, offsets around bucket boundaries in sparse files."),
 "C22": ("stateless exploration of the real program's thread schedules under a controlled scheduler, bounded by the number of preemptions, including every choice of stolen jobs", "Complete for at most 2 (4) preemptions on all files of up to 3 (4) fragments and 2 and 3 processors, 1 preemption on 4 (5) processors and in the pattern search; threads switch at atomic operations, global data and blocking calls."),
 "C23": ("exhaustive bounded enumeration of malformed files, every command of the real program on each", "Complete for all files of the explored fragments, header types, cuts and byte changes, every command, both access methods."),
 "C24": ("exhaustive enumeration of payload sizes, inputs, message counts and ids, run through the real program and read back by a reference model", "Complete for all inputs of the explored pieces with payload sizes up to 40, every 97th (every) payload size, message counts up to 520 and around counter wraps, all listed refused sizes."),
 "C25": ("stateless exploration of all outcomes of the read and write calls of the real program under a controlled fault injector, bounded by the number of deviating calls", "Complete for at most 2 or 3 (3 or 4) deviating calls anywhere in the execution, and for persistent deviations with one failing call."),
 "C26": (SEQ, "As C01, for the strict reader and both message kinds."),
}
T["C27"] = (SEQ + ", every position", "Complete for all streams of up to 4 (5) fragments out of 17, all byte strings up to 8 (10) over small message types, every position, every announced length 0..65535.")
T["C28"] = ("stateless exploration of all outcomes of the read and write calls of the real program under a controlled fault injector, bounded by the number of deviating calls", "Complete for at most 2 or 3 (3 or 4) deviating calls anywhere in the execution of every command on 4 files, and for persistent deviations with one failing write.")
T["C29"] = ("stateless exploration of all interleavings of the steps of two and three users of the real library, on one thread and on controlled threads, and of all schedules of two and three users under a controlled scheduler within a preemption bound, against what each gives alone", "Complete for all pairs of 21 uses on streams within the bounds, all interleavings of their steps up to the bound, two and three users.")
T["C30"] = ("exhaustive enumeration of sequences of Iterator operations on the real iterators, in lock step with a list", "Complete for all sequences of up to 2-3 (3-4) operations out of 12 followed by one of 11 consuming ones, on 9 iterators and all streams of the explored fragments.")
T["C31"] = ("exhaustive enumeration of pipelines and input sequences, each call and drop compared with stage-by-stage functions", "Complete for all chains and inputs within the bounds, pushed and pulled.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
          "technique": "model checking: " + T[i][0], "level": "model_checking", "level_note": T[i][1] + " Assumes that larger cases behave like the explored ones; trusts the reference model in mc/src."})
    else:
        na.append({"property": i, "reason": "no check registered yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses the public API or the built programs. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid", len(checks), "checks,", len(na), "without")
except ImportError: pass
