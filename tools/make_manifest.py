"""Writes /verif/MANIFEST.json from the checks and properties.jsonl."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "property-based differential testing against an independent recursive Fresnel reference",
    "C02": "property-based differential testing against an independently formulated boundary-value problem",
    "C03": "property-based differential testing of solvers and propagators against each other",
    "C04": "property-based testing of an energy invariant",
    "C05": "metamorphic property-based testing with response-preserving rewrites",
    "C06": "metamorphic property-based testing (array against single wavelengths)",
    "C07": "stateful model-based testing of generated operation histories",
    "C08": "metamorphic property-based testing of symmetry and reciprocity laws",
    "C09": "property-based testing against textbook polarisation algebra",
    "C10": "property-based testing against a reference for psi, delta and ranges",
    "C11": "property-based testing against a Stokes-vector oracle",
    "C12": "property-based testing against a name-by-name reference",
    "C13": "stateful and property-based testing against a stack/mean reference",
    "C14": "property-based differential testing against independently written model formulas",
    "C15": "grammar-based generation of constructor calls against a binding model",
    "C16": "property-based testing against a sum-of-terms reference",
    "C17": "property-based testing of agreement between views",
    "C18": "property-based testing against an independent interpolation reference",
    "C19": "grammar-based differential fuzzing against an independent formula parser and evaluator",
    "C20": "property-based differential testing against an independent Kramers-Kronig sum",
    "C21": "property-based and stateful testing against explicit tensor algebra",
    "C22": "property-based testing of mixing equations, symmetries and roots",
    "C23": "property-based testing against a reference expansion of layer trees",
    "C24": "stateful fuzzing of constructors and setters with invalid values",
    "C25": "property-based round-trip and differential testing",
    "C26": "structured file generation, write/read round trip",
    "C27": "structured file generation, write/read round trip",
    "C28": "generated catalogues and entries against a reference model",
    "C29": "stateful model-based testing of operation sequences",
    "C30": "stateful model-based testing and simulate/fit round trips",
    "C31": "property-based testing of drawn data against a reference profile",
    "C32": "stateful property-based testing of copies against originals and fresh objects",
    "C33": "property-based testing of generated overlapping evaluations against isolated ones",
}
NOTE = (
    "Generated-input search with Hypothesis (seeded, shrinking) against an explicit oracle that shares no code with the "
    "library; shows the absence of violations among the generated cases only. Domain limits are listed as assumptions in "
    "the evidence file. Trusts numpy, scipy and the reference code in /verif/vlib and the check module."
)
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
checks = []
for p in props:
    i = p["id"]
    checks.append(
        {
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python run.py {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE,
        }
    )
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import vlib.boot as b; b.load_elli(); import hypothesis; print('ready')\"",
    "checks": checks,
    "not_applicable": [],
    "notes": "The library is pure Python and imported from /repo/src directly, so every run sees the current working tree; "
    "no hooks are needed in /repo.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks")
