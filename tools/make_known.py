#!/usr/bin/env python3
"""Writes the 'fixed:' lines of /verif/known-findings.txt from /repo's fix commits."""
import os, subprocess
PROP = """da4ef19 C04|869139b C03|8663d15 C06|aee4833 C15|6b02080 C14|6812875 C01|c32e19b C08|b53c35a C11|ef04551 C07|df871fa C10|d2a1d3e C06|bdbc194 C10|c704da0 C10|1ad413d C05|07c01d1 C13|a916f55 C11|3dd826e C02|6866090 C28|e129a44 C06|b2a1828 C18|e314f21 C16|2dc3868 C17|7112252 C17|e736466 C18|7b367e7 C19|f1b25d2 C22|37a390e C22|21b4c57 C23|483657a C23|0c8997f C24|59757e4 C17|642f277 C23|bf94fae C25|30d32fd C26|bef82d6 C26|0057f8d C25|6a9cc5a C26|5f64001 C26"""
m = dict(x.split() for x in PROP.split("|"))
extra = {"room for any value in the requested format": "C25", "bigfile-rename moved a block": "C31", "failed on files with blanks in their path": "C26", "deleted the blocks inside": "C26", "bigfile-iosim": "C32", "read_simple counts": "C05", "error messages name": "C14", "read_simple refuses": "C10", "a directory named attr-v2": "C10", "bigfile-get-attr and bigfile-cat showed the dtype": "C25", "bigfile-create recorded a size of -1": "C26", "empty strings in a list": "C23", "representation of a column": "C23", "sub-files of FileMPI with a leading slash": "C23"}
out = ["# Findings of the checks on rainwoodman/bigfile.",
 "# finding: property=<id> match=<text of the violation> -- <what fails>      (a known, unrepaired defect)",
 "# fixed: property=<id> <commit> <what failed>                              (repaired in /repo; suppresses nothing)"]
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = m.get(h[:7]) or next((v for k, v in extra.items() if k in s), None)
    if p is None: print("no property for", l); p = "C00"
    out.append("fixed: property=%s %s %s" % (p, h, s[4:].strip()))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt"), "w").write("\n".join(out) + "\n")
