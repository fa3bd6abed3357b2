"""Regenerate DESIGN.md: hand-written parts below, tables from props/*.py META,
properties.jsonl, known_findings.json and seeded/*/meta.json."""
import ast, glob, json, os, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
ORACLE = {
    "C16": "the definition: a required line is reported exactly if no (child) line equals it up to blanks; negations computed by string rules",
    "C17": "a Python list of the same texts driven through the same operations",
 "C18": "the list of lines the file was assembled from, parsed directly; the current lines for save_as",
 "C01": "the input text itself; re-parse and commit compared with the first parse",
 "C02": "a 15-line reference of the indentation rule (`props/common.py: ref_parents`)",
 "C03": "reference extent of the block (first line containing the delimiter) + the C02 reference outside it",
 "C04": "a reference brace reader working on the *kinds* of lines the case was built from (depth and opener per statement)",
 "C05": "direct filter over the lines, with the same regular expression run over the reference texts",
 "C06": "set comprehension over the reference hierarchy",
 "C07": "recursive reference expansion of branches over the reference hierarchy",
 "C08": "closures over the reference hierarchy",
 "C09": "list editing on the reference texts, then the reference hierarchy of the result",
 "C10": "closure of the selected lines under 'descendant of', removed from the reference list",
 "C11": "per-line reference substitution, then the reference hierarchy of the result",
 "C12": "first match in the reference order (line, children / descendants), cast by hand",
 "C13": "multiset of (ancestor texts, text) paths of either side",
 "C14": "tuple equality / integer order",
 "C15": "an interpreter of the commands (`no X` removes X below the named parents) and comparison of the matching lines",
 "I01": "the numbers the text was written from; validity decided from digit values and the contiguity of the mask",
 "I02": "an RFC 4291 recogniser written independently over the character classes; the numbers the text was written from",
 "I03": "integer formulas on (address, length)",
 "I04": "set-of-addresses formulas over bit-vectors (a free symbolic witness address is in the union before iff after)",
 "I05": "integer formulas on (address, length)",
 "L01": "membership formula of the specification for a free symbolic port",
 "M01": "the optional parts the line was assembled from", "M02": "the lines the interface was assembled from",
 "M03": "the lines the interface was assembled from; set arithmetic on VLAN numbers",
 "M04": "the components the name was assembled from", "M05": "the lines the interface was assembled from",
 "M06": "the lines the interface was assembled from, per group", "M07": "the words the commands were assembled from",
 "M08": "the clauses the entry was assembled from", "M09": "reference expansion of the groups the case was built from",
 "M10": "the lines the interface was assembled from", "M11": "the lines the interface was assembled from",
 "M12": "the lines the interface was assembled from; set arithmetic on VLAN numbers",
 "M13": "the lines the block was assembled from", "M14": "the optional parts the line was assembled from",
 "M15": "the commands the configuration was assembled from",
 "P01": "the type-7 encryption of the symbolic password computed by the reference (Cisco's published key)",
 "N01": "the components the name was assembled from; lexicographic order of the component tuple",
 "R01": "sorted set of the numbers denoted (symbolic membership)", "R02": "sorted set of the interfaces denoted",
}
from design_text import INTRO, OUTSIDE, STRENGTHEN, SOUNDNESS, NOTES
props = [json.loads(l) for l in open("properties.jsonl")]
def meta(pid):
    t = ast.parse(open(f"props/{pid.lower()}.py").read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            d = {}
            for k, v in zip(n.value.keys, n.value.values):
                try: d[k.value] = ast.literal_eval(v)
                except Exception: pass
            return d
    return {}
def flat(x):
    if isinstance(x, dict): x = x.get("quick", next(iter(x.values())))
    if isinstance(x, (list, tuple)): x = "; ".join(map(str, x))
    return " ".join(str(x).split())
out = [INTRO.strip(), "", "## Properties and how each is decided", "",
 "Statements are in `properties.jsonl`. Every input named below is symbolic: the solver's verdict covers all its values. "
 "The thorough tier uses the same harnesses with the larger sizes given in each `tasks()`.", ""]
for p in props:
    pid = p["id"]; m = meta(pid)
    out.append(f"**{pid}: {p['title']}.** Oracle: {ORACLE.get(pid, 'see the harness')}. "
               f"Bounds (quick): {flat(m.get('bounds', ''))}."
               + (f" Outside: {flat(m['outside'])}." if m.get("outside") else ""))
    out.append("")
out += [OUTSIDE.strip(), "", "## Defects found and repaired", ""]
kf = json.load(open("known_findings.json"))
by = collections.OrderedDict()
for f in kf["fixed"]:
    pid = f.split("property=")[1].split()[0]
    by.setdefault(pid, []).append(f.split(" ", 3)[3] if False else f.split("property=")[1].split(" ", 2)[2])
out.append(f"{len(kf['fixed'])} genuine defects were found by these checks, each confirmed on the uninstrumented code and repaired by one "
           f"`fix:` commit in /repo (hashes in `known_findings.json`); {len(kf['findings'])} are recorded as known findings.")
out.append("")
for pid in sorted(by):
    out.append(f"* {pid} ({len(by[pid])}): " + "; ".join(by[pid]) + ".")
out += ["", NOTES.strip(), "", "## Planted bugs and which check catches them", "",
 "Each was run with `tools/trybug.sh` (patch applied to /repo, build, tests, demo, check, revert). The check of the named property "
 "reports every one of them; entries of 'Strengthened' below were missed when first planted.", "",
 "| bug | breaks | needs |", "|----|----|----|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    out.append(f"| {f.split('/')[1]} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
out += ["", STRENGTHEN.strip(), "", SOUNDNESS.strip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
