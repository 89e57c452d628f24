#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFERENCE = {
    "C01": "a reference width function built from the Unicode 15.0 database; all code points enumerated",
    "C02": "the sum of the widths of the runes (metamorphic)",
    "C03": "strings.FieldsFunc and strings.Fields on the same text (differential), and two appends to each result",
    "C04": "a model of a rune reader (stateful histories)",
    "C05": "the substrings of the UTF-8 encoding, and regular expressions on the same text (differential)",
    "C06": "the UTF-8 encoding by the standard library, with failing writers",
    "C07": "concatenation and order laws on the stripped parts",
    "C08": "a reference lexer of escape sequences",
    "C09": "a reference rendering and a model of open sequences",
    "C10": "a stack model of each line (stateful walks)",
    "C11": "a reference split; all code points enumerated",
    "C12": "a reference split; all code points enumerated",
    "C13": "partition laws",
    "C14": "a reference Liang implementation on copies of the TeX pattern files; all patterns and exceptions enumerated",
    "C15": "the same word in another case (metamorphic)",
    "C16": "reference hyphenators identified on probe words",
    "C17": "the same calls in another order, after overwriting results and inputs, and alone in a new process",
    "C18": "the results of the same calls alone, and the race detector",
    "C19": "names and errors of loading",
    "C20": "a map (stateful model)",
    "C21": "a reader of the lines against the visible text",
    "C22": "a reference measure of each line",
    "C23": "an exhaustive dynamic programming model of feasible breaks",
    "C24": "the optimum of a dynamic programming model",
    "C25": "a model of legitimate break points and hyphens",
    "C26": "a model of the style of each rune, and the paragraph without sequences (metamorphic)",
    "C27": "a fresh line breaker on the same paragraph (histories)",
    "C28": "the absence of panic, runaway and unexpected error",
    "C29": "the lines of the sources without comments and blanks, on generated trees of files",
    "C30": "the data served to the generator, measured with the package rebuilt from its output, and faults of the server",
}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing: generated cases with shrinking (rapid), against " + REFERENCE[i],
        "level": "exploration",
        "level_note": "Held on all the generated cases, which evidence counts; nothing is proved beyond them. Trusts the reference named in the technique, the generators, and the Go toolchain.",
    })
manifest = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: checks use the public packages of /repo, and the internal trie through the import path of the harness module, which is below wordbreak/hyphenator.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
