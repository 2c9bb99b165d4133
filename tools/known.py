"""Writes the fixed: lines of /verif/known_findings.txt; finding: lines in tools/findings.txt are appended as they are."""
import os
import subprocess

PROPERTY = {
    "a706c97": "C02", "ea3b909": "C04", "6ea706d": "C02", "ed99374": "C02", "42c99ee": "C02", "c3b69cb": "C04",
    "b7e3b41": "C08", "d89f11c": "C01", "3682de1": "C01", "234e178": "C01", "b6e275f": "C05", "d554acd": "C01",
    "c375211": "C01", "70557d3": "C01", "25ea3d2": "C02", "1539d84": "C02", "bf1bd30": "C01", "cf5a08a": "C01",
    "85c768a": "C01", "9199830": "C07", "7e391d3": "C02", "17c9d25": "C18", "335f670": "C11", "c09db9e": "C10",
    "2012f3b": "C11", "b52d2ad": "C04", "110d58b": "C20", "fe78940": "C20", "b0b5324": "C21", "84db839": "C14",
    "2fcd160": "C09", "bc812ca": "C11", "0281292": "C10", "f732e35": "C13", "d50018d": "C12", "67330b4": "C16",
    "e66474d": "C09", "f275e25": "C14", "98a6a8b": "C14", "7043b3e": "C11", "cc625aa": "C13", "b26d934": "C10",
    "97e3db8": "C11", "f3ac751": "C11", "9ab7f3a": "C10", "7fb1b38": "C11", "d739a17": "C16", "868c34f": "C14",
    "7376f6a": "C11", "1297df4": "C27", "67d074b": "C21", "cf476d3": "C01", "52235b5": "C17",
    "0cd7321": "C11", "49ad66f": "C28", "c201abc": "C25", "e2ffe2d": "C02", "8da6401": "C07", "c2deac9": "C16",
    "8c077fc": "C10", "df5e294": "C26", "d72e2be": "C11", "f76bd96": "C18", "b6462f9": "C02", "d1ef439": "C06",
}  # fmt: skip

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
lines = []
for line in log.splitlines():
    commit, subject = line.split(" ", 1)
    if subject.startswith("fix: "):
        lines.append("fixed: property={} {} {}".format(PROPERTY.pop(commit), commit, subject[5:]))
assert not PROPERTY, PROPERTY
extra = os.path.join(here, "tools", "findings.txt")
if os.path.exists(extra):
    lines += open(extra).read().splitlines()
with open(os.path.join(here, "known_findings.txt"), "w") as f:
    f.write("\n".join(lines) + "\n")
print(len(lines))
