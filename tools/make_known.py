"""Writes known_findings.json from the list of repairs in /repo and the open findings."""
import json
import pathlib
import subprocess

PROP = {
    "ef4a1b7": "C20",
    "84fecae": "C10", "daade2c": "C12", "9bbba31": "C11", "254eff3": "C16", "3749ae2": "C18", "9ddcfc6": "C16",
    "7a7d938": "C13", "f33480e": "C12", "1792edf": "C20", "1d93033": "C27", "32531b7": "C29", "0452682": "C30",
    "5fe1ec1": "C30", "9698006": "C19", "239e02c": "C10", "a686998": "C16", "554a4c5": "C15", "dd1c93f": "C02",
    "e9ae9f0": "C23", "1eb5828": "C04", "2230505": "C09", "b54d53f": "C03", "b54cd03": "C23", "7eed918": "C06",
    "11e0ac5": "C14", "5f5bcd4": "C11", "e159372": "C13", "7e306c4": "C12", "1bbe638": "C18", "eaee9af": "C18",
    "82c53e9": "C20", "1f18861": "C19", "fc68b06": "C19", "0069d7e": "C19", "aa12485": "C22", "7825287": "C23",
    "c9c9580": "C26", "b210749": "C26", "48d3091": "C26", "27db805": "C26", "bb7b15e": "C27",
    "c43f50a": "C28", "c2ce42b": "C28", "d6abaa1": "C28", "db64aa0": "C29", "02f55de": "C29", "a7825eb": "C29",
    "639335a": "C30", "c76aec6": "C30", "587f2ef": "C30",
    "b8a3ff7": "C32", "52ce392": "C32", "f45d46b": "C19", "e7961ab": "C32", "7a315bc": "C20", "469f73b": "C14", "887c902": "C22", "bc3e012": "C02",
}
KNOWN = [
    {
        "property": "C27",
        "id": "nexus-table-units",
        "what": "read_nexus_materials ignores the units attribute of tabulated wavelengths: micrometers, as in all shipped "
        "material files, are used as nanometers. tests/test_nexus_formula.py compares with exactly this, so it cannot be "
        "repaired with the existing tests unedited.",
        "input": "NXdispersion_table group with dataset wavelength [0.5, 0.6], attribute units='micrometer'",
        "call_site": "src/elli/importer/nexus.py:read_nexus_materials.get_dispersion_table",
    },
]
log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "3444e99..HEAD"], capture_output=True, text=True, check=True
).stdout.splitlines()
fixed = []
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append(f"fixed: property={PROP[h]} {h} {s[5:]}")
out = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
out.write_text(json.dumps({"known": KNOWN, "fixed": fixed}, indent=1, ensure_ascii=False) + "\n", encoding="utf-8")
print(len(fixed), "fixed,", len(KNOWN), "known")
