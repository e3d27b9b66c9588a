#!/usr/bin/env python3
"""Writes known_findings.json from the list of repaired defects (run by hand)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
PROP = {
 "bind values by difference": "C01", "resolve array of repeat": "C01", "keep order of siblings": "C01",
 "keep whitespaces between binders": "C06", "do not include trailing whitespaces": "C16", "do not read tags starting": "C06",
 "end unquoted value": "C06", "match the nearest previous": "C03", "match value with hyphen": "C03", "separate classes": "C03",
 "match selectors with combinators": "C03", "do not panic on values which are not": "C07", "allow any whitespaces between values": "C20",
 "reset layout and appearance": "C02", "forget animations and transitions": "C02", "measure text again": "C02",
 "do not scroll in direction": "C08", "do not hang when property": "C07", "play animations of zero": "C07",
 "keep value of property during": "C14", "interpolate between zero": "C13", "apply the first of several": "C04",
 "overflow stack by variables": "C07", "overflow stack by templates": "C07", "do not get elements by": "C18",
 "end drag when": "C12", "report position of mouse": "C09", "image does not catch": "C05", "support zero factors": "C04",
 "hide content of hidden": "C05", "read longhand properties": "C04", "do not reuse cached layout": "C02",
 "by identifiers which several": "C18", "use style and id of attributes": "C06", "keep line break between bindings": "C06",
 "read line breaks of texts": "C06", "read inline style which begins": "C20", "allow comments in arguments": "C20", "keep whitespaces at the beginning": "C06",
 "evaluate big integers": "C16",
 "restore a local which": "C17", "allow digits in names": "C04",
 "bind items of arrays which": "C01", "bind property which is named": "C01",
 "press elements which": "C10", "starts one drag": "C12", "of the button which was pressed": "C10", "to the deepest of text fields": "C10", "searched for in scripts": "C06", "transitions of their own": "C14", "do not follow values of animations": "C13", "presence of class and id": "C18", "begin animations of zero": "C13", "forget value of transition": "C14",
}
out = []
for line in reversed(log):
    commit, subject = line.split(" ", 1)
    if not subject.startswith("fix: "):
        continue
    keys = [k for k in PROP if k in subject]
    assert len(keys) == 1, (subject, keys)
    p = PROP[keys[0]]
    out.append(dict(property=p, status="fixed", commit=commit, what=f"fixed: property={p} {commit} {subject[5:]}"))
out += [
 dict(property="C07", status="open", case="regress/C07/grid-hang.json",
      what="an update never ends on a grid whose row tracks get fractional sizes from texts (html and css of regress/C07/grid-hang.json): loop of taffy 0.6.3, distribute_space_up_to_limits"),
]
with open(f"{here}/known_findings.json", "w") as f:
    json.dump(dict(findings=out), f, indent=1)
    f.write("\n")
