#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "P01": "property-based testing: generated values and configurations, format/parse round trip against a structural reference comparison",
 "P02": "property-based testing: generated values with identities, round trip and comparison with the text of the stripped value",
 "P03": "stateful property-based testing: generated histories of layout requests, round trip of the text after any prefix",
 "P04": "model-based stateful testing: generated histories of layout requests against a reference state machine",
 "P05": "property-based testing: generated values and width limits against a reference layout calculation",
 "P06": "metamorphic property-based testing: the same layout through different entry points, buffers and ownership",
 "P07": "property-based testing: generated strings and bytes in all positions, round trip",
 "P08": "fuzzing: generated and mutated texts, totality and trace invariants",
 "P09": "property-based testing: generated nesting patterns, measured work at growing sizes",
 "P10": "property-based testing: independent reference writer of the notation, parse against the model value",
 "P11": "mutation-based fuzzing: generated texts with one break, refusal and content accounting",
 "P12": "fuzzing: generated and mutated texts, accepted ones are written and parsed again",
 "P13": "property-based testing: generated number pairs and triples against exact arithmetic",
 "P14": "property-based testing: generated numbers against exact arithmetic",
 "P15": "property-based testing: generated number spellings and non-numbers against an exact reference reader",
 "P16": "property-based testing: generated value pairs and triples against a reference comparison and order laws",
 "P17": "property-based testing: generated values of mixed ownership, structural comparison and ownership audit",
 "P18": "property-based testing: generated names and field lists against the documented rule",
 "P19": "model-based testing: generated values, every navigation call against a reference tree",
 "P20": "model-based stateful testing: generated values and sequences of mutations against a reference tree",
 "P21": "property-based testing: generated Rust data of a universe of types, encode/decode round trip",
 "P22": "property-based testing: generated Rust data and configurations, encode/format/parse/decode round trip",
 "P23": "property-based testing: generated values decoded to many types against a reference decision",
 "P24": "property-based testing: generated values decoded generically and through attribute-driven types against a reference",
 "P26": "stateful property-based testing: generated values and layout histories, written lines against an independent reference writer",
 "P28": "generated native data through every constructor, the result against the data itself",
 "P27": "fault injection: generated Rust data with one generated fault at one part, the outcome against the fault",
 "P25": "property-based testing: generated native values, direct conversion against expected structure and the encoder",
}
CLAIMED = open(os.path.join(root, "tools", "claimed.txt")).read().split()
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration",
            level_note="Held on every generated case of a fixed, seeded campaign; bounds and case counts are in the evidence file and in DESIGN.md."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="Each check builds the harness crate in /verif/harness against /repo's working tree and runs one seeded campaign (VERIF_SEED, VERIF_TIER). Failures are shrunk; replay with: /verif/harness/target/release/kverif replay FILE.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
