#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
import run

FUZZ = " and coverage-guided fuzzing (libFuzzer)"
TECHNIQUE = {
    "P01": "property-based testing" + FUZZ + " against an exact automaton built from the RFC's ABNF",
    "P02": "property-based testing" + FUZZ + " against an Appendix B component model; views checked by address",
    "P03": "property-based testing" + FUZZ + ": parse/compose round trip on every output route",
    "P04": "property-based testing" + FUZZ + ": predicate against grammar model, compose/parse metamorphic relation",
    "P05": "property-based testing" + FUZZ + " against an RFC 3986 section 5.2 reference model",
    "P06": "property-based testing" + FUZZ + " against the literal RFC 3986 section 5.2.4 string algorithm",
    "P07": "property-based testing" + FUZZ + " against set membership from the WHATWG text",
    "P08": "property-based testing" + FUZZ + ": differential between interfaces and a reference decoder",
    "P09": "property-based testing" + FUZZ + " against an RFC 3492 model; round trip",
    "P10": "property-based testing" + FUZZ + " against a component-wise model under sanitizers",
    "P11": "property-based testing" + FUZZ + " against a component-wise model under sanitizers",
    "P12": "property-based testing" + FUZZ + ": encode/decode round trip",
    "P13": "property-based testing" + FUZZ + " over generated grammars against a reference interpreter",
    "P14": "property-based testing" + FUZZ + " against an independent UTF codec; differential between interfaces",
    "P15": "property-based testing" + FUZZ + " against an error-recovery model (validity predicate for UTF-8)",
    "P16": "property-based testing" + FUZZ + " against a byte-order-mark model",
    "P17": "property-based testing of the built tool against a model of its output and exit status",
    "P18": "property-based testing" + FUZZ + " of every public operation under address and undefined-behaviour sanitizers with a CPU limit",
    "P19": "property-based testing" + FUZZ + ": algebraic laws and a field-wise model",
    "P20": "property-based testing" + FUZZ + " against the text of the path",
    "P21": "stateful property-based testing of call histories on one and several threads, against isolated calls; ThreadSanitizer",
    "P22": "property-based testing" + FUZZ + " against index loops over several iterator categories",
    "P23": "property-based testing with deterministic work and stack metering: metamorphic relation between two sizes of one shape",
    "P24": "property-based differential testing between builds in seven configurations",
    "P25": "property-based testing with fault injection at every allocation, against the fault-free result",
    "P26": "property-based testing" + FUZZ + ": differential between locales against the C locale",
    "P27": "stateful property-based testing" + FUZZ + " of iterator histories against positions in a reference decoding",
}
NOTE = {
    "P26": "; in locales compiled by the check from definitions installed here, and C++ facets written for it",
    "P27": "; the transcoded text itself is the subject of P14 and P15: here it is obtained unit by unit",
    "P23": "; growth is judged between sizes 16 times apart, with slack; libstdc++'s own compiled code is metered by bytes moved only",
    "P24": "; configurations for x86-64 with libstdc++ only",
    "P25": "; the predicates and the transcoders, which are noexcept, and the conversion to a filesystem path (libstdc++ itself crashes) are left out",
    "P07": "; U+0060 with the fragment set is a recorded known finding",
    "P09": "; leniency for a single leading delimiter, code points above U+10FFFF and values above 2^32-1 is not constrained",
    "P10": "; hosts of malformed UTF-8 are only checked for memory safety and structure",
    "P11": "; labels which decode to nothing or to non-scalar values are not constrained",
    "P15": "; for UTF-8 the number of U+FFFD per run of errors is bounded, not fixed",
    "P17": "; file names are those of regular files or absent ones; unreadable files and directories are not generated",
    "P21": "; schedules are those the machine happens to produce, but the race detector reports unordered accesses in any of them",
}
checks = []
for line in (HERE / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    if pid not in run.PROPS:
        continue
    st = {k: n for k, n in run.PROPS[pid]["stages"].items() if n}
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py check {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": TECHNIQUE[pid],
        "level": "exploration",
        "level_note": "Generated-input search: no failure among " + ", ".join(f"{n} cases ({k} build)" for k, n in st.items()) +
                      f" per quick run (up to {run.THOROUGH} times as many in the thorough tier); absence is not proved. Trusts the models in ref/, "
                      "the compilers and libstdc++" + NOTE.get(pid, "") + ".",
    })
doc = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo. See DESIGN.md; known findings are in known_findings.txt."}
(HERE / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
