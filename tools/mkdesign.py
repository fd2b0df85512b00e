"""Fills the tables of DESIGN.md (defects, planted bugs) from known-findings.txt and seeded/ into tools/design.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c08-size-mask": "C08 (first missed: operations of more than 4 GiB on free-running threads)",
    "c09-epoch-of-4gib": "C09 (first missed: same)", "c10-raw-beyond-4gib": "C10 (first missed: same)",
    "c11-cancel-forgives": "C11 (first missed: same, with cancellations at given moments)",
    "c13-barrier-of-bytes": "C13 (first missed: hundreds of threads)",
    "c14-work-items-capped": "C14 (first missed: batches of tens of thousands of chunks)",
    "c02-total-in-32-bits": "C02 (first missed: streams with outputs of 2^35 bytes and more)",
    "c04-capacity-in-32-bits": "C04 (first missed: capacities of 2^35 bytes and more)",
    "c21-so-close": "C21 (first missed by chance: capacities relative to what the output takes)",
    "c21-program-of-cache": "C21 (first missed: builds that fail)",
    "c03-truncated-checksum": "C03 (first missed: streams lacking only zeros, forced checksums)",
    "c06-tables-at-first-use": "C06 (first missed: concurrent first calls now run under the controlled scheduler)",
    "c11-reported-once-per-stream": "C11 (first missed: another stream now works in the same process)",
    "c11-sizes-kept": "C11 (first missed: the stand-in implementation now refuses capacities the caller did not have to give)",
    "c18-reason-overwritten": "C18 (first missed: messages now fail and set errno as they are written)",
    "c15-cache-opened-twice": "C15 (histories in which other constructions happen between two file operations of one)",
}
text = open(os.path.join(V, "tools/design.md")).read()
defects = []
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        defects.append("%d. %s (`%s`): %s." % (len(defects) + 1, m.group(1), m.group(2), m.group(3)))
bugs = []
for d in sorted(glob.glob(os.path.join(V, "seeded/*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    b = os.path.basename(d)
    bugs.append("| %s | %s | %s |" % (b, m["needs"], MISSED.get(b, m["property"])))
text = text.replace("DEFECTS", "\n".join(defects)).replace("BUGS", "\n".join(bugs))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
