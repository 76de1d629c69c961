# prints the table of planted bugs for DESIGN.md section 5
import json, glob, os
MISSED = {
 "builder-second-growth": "texts of hundreds of equal characters across each growth step",
 "bitincrement-zero": "sign of zero tracked through arithmetic and bit patterns", "negative-zero": "sign of zero tracked; parse cases for `-0`",
 "remove-partial": "overloads not in ValidTypes.xml but called by it are entry points", "punctuation-caret": "laws over texts of length 1 for every class of character",
 "single-compare-zero": "rule `immutbox`", "shrink-capacity": "longer edit histories with capacity changes between edits",
 "subnormal-flush": "partition of floating point arguments by class, with representatives; bit patterns of constants exact"}
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(d)); n = d.split("/")[-2]
    print("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " ")[:170], MISSED.get(n, "")))
