#!/usr/bin/env python3
"""Writes harness/protocol_golden.inc: the DAP message and member names that
C19 expects.  Run once against the audited tree (names, required members and
types were compared with the DAP specification's naming rules); the checks use
the committed table and never run this.
"""
import os
import re
import sys

repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = open(repo + "/include/dap/protocol.h").read()
h = re.sub(r"//[^\n]*", "", h)
structs = {}
order = []
for m in re.finditer(r"struct (\w+)(?:\s*:\s*public (\w+))?\s*\{(.*?)\n?\};", h, re.S):
    name, base, body = m.groups()
    mem = []
    resp = None
    for d in body.split(";"):
        d = " ".join(d.split())
        if not d:
            continue
        r = re.match(r"using Response = (\w+)$", d)
        if r:
            resp = r.group(1)
            continue
        f = re.match(r"(.*?)[ >](\w+)( ?=.*)?$", d)
        typ = d[:d.rindex(f.group(2), 0, len(d) if not f.group(3) else d.index("="))].strip()
        mem.append((typ, f.group(2)))
    structs[name] = (base, mem, resp)
    order.append(name)
names = {}
for f in ("types", "requests", "response", "events"):
    s = open(f"{repo}/src/protocol_{f}.cpp").read()
    for m in re.finditer(r"DAP_IMPLEMENT_STRUCT_TYPEINFO\(\s*(\w+),\s*\"([^\"]*)\"(.*?)\);", s, re.S):
        names[m.group(1)] = (m.group(2), re.findall(r'DAP_FIELD\((\w+),\s*"([^"]*)"\)', m.group(3)))
out = ["// Generated once by tools/gen_protocol_golden.py and committed: the expected wire",
       "// form of every protocol type.  G(struct, kind, message name, fields), F(member,",
       "// wire name, required, type)."]
for n in order:
    if n in ("Request", "Response", "Event"):
        continue
    base, mem, resp = structs[n]
    wire, fields = names[n]
    wn = dict(fields)
    assert len(wn) == len(fields) == len(mem), n
    kind = base or "Type"
    out.append(f"G_BEGIN({n}, {kind}, \"{wire}\", {resp or 'NoResponse'})")
    for t, f in sorted(mem, key=lambda x: x[1]):
        req = 0 if t.startswith("optional<") else 1
        out.append(f"  F({f}, \"{wn[f]}\", {req}, ({t}))")
    out.append(f"G_END({n})")
open(here + "/harness/protocol_golden.inc", "w").write("\n".join(out) + "\n")
print(len(order) - 3, "structs", sum(len(structs[n][1]) for n in order), "members", len(names))
