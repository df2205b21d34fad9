#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. One line per property says how its check decides it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
T = {
"C01": ("a running server under ASan, random concurrent clients (well-formed, misbehaving), random thread counts and accept/descriptor faults; each response compared with a model", "schedules are those the kernel happens to produce; deadlines are generous"),
"C02": ("random route tables and generated regular expressions against an independent first-match search", "expressions of bounded size without nested repetition"),
"C03": ("random handler responses under scripted short writes, parsed response against what the handler returned", "supported status codes only"),
"C04": ("random ranges and bodies against a slicing oracle", "inverted, suffix, multiple and non-numeric ranges: framing only; one known finding"),
"C05": ("metamorphic: one random request under random segmentations, handler view and response against what was sent", "up to the documented maximum size"),
"C06": ("structured, mutated and coverage-guided hostile requests under AddressSanitizer with early disconnects", "memory errors ASan and UBSan detect"),
"C07": ("random request histories with disconnections; heap bytes, descriptors, mappings and clean-up calls compared with the state before", "resources counted per process"),
"C08": ("random requests in exact-size buffers against the text they were built from", "parser called directly; segmentation is C05"),
"C09": ("random header blocks against a line-by-line reference lookup", ""),
"C10": ("random form bodies against a reference decoder and map", "keys are not URL-decoded by the library and are generated unencoded"),
"C11": ("round trip through random percent-encodings and malformed escapes in exact-size buffers", ""),
"C12": ("random Cookie headers against a reference lookup", "cookies without a value are not looked up"),
"C13": ("random and boundary Range values against a reference parser", ""),
"C14": ("random files and names delivered directly and through the server against their bytes", ""),
"C15": ("random templates and contexts against a text-level reference renderer", "values do not contain template syntax: known finding"),
"C16": ("random loops over random arrays against the reference renderer", "one loop per path"),
"C17": ("random conditionals against the reference renderer", "sub-context members: complementarity only"),
"C18": ("random filter calls with recorded arguments and clean-ups against the reference renderer", ""),
"C19": ("random include trees in a scratch directory against the reference renderer", ""),
"C20": ("repeated rendering of unterminated exact-size buffers: purity, size, and heap comparison", ""),
"C21": ("random values, names and integers of the full range against the reference renderer", ""),
"C22": ("model-based histories with allocation faults against a list", ""),
"C23": ("model-based histories against a map, with heap comparison", ""),
"C24": ("model-based histories against an array of optional elements", ""),
"C25": ("random strings against reference definitions", ""),
"C28": ("random jobs on separate objects, run alone and then in two to six threads at once; every result must be the same (differential)", "interleavings are those the kernel produces"),
"C27": ("random messages, threads, times and served requests; what the process wrote to both streams against what was logged", "interleavings are those the kernel produces; a line feed inside a logged header value is not claimed to be escaped"),
"C26": ("hypothesis: random Python contexts and templates through the binding against a reference renderer", ""),
}
DONE = os.environ.get("DONE", "").split() or sorted(T)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for k in sorted(T):
    if k in DONE:
        m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k,
            "evidence_file": "evidence/%s.json" % k, "technique": PBT + T[k][0], "level": "exploration",
            "level_note": "generated-input search, not proof" + ("; " + T[k][1] if T[k][1] else "")})
    else:
        m["not_applicable"].append({"property": k, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
