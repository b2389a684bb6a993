#!/usr/bin/env python3
"""Writes harness/p/h08/messages.go: for every message with a generated codec, a function which
sets its i-th field to an open value, and the field's registered number and wire type."""
import glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/api/oidc"
pk = {}
msgs = {}
enums = set()
for f in sorted(glob.glob(R + "/*/v1/*.pb.go")):
    if f.endswith("_grpc.pb.go"): continue
    d = f.split("/")[-3]; p = d + "v1"
    pk[p] = f"zntr.io/solid/api/oidc/{d}/v1"
    s = open(f).read()
    imp = dict(re.findall(r'^\s+(v1\d*) "zntr.io/solid/api/oidc/(\w+)/v1"', s, re.M))
    for e in re.findall(r"^type (\w+) int32", s, re.M): enums.add((p, e))
    if f.endswith("vtproto.pb.go"):
        for n in re.findall(r"^func \(m \*(\w+)\) UnmarshalVT", s, re.M): msgs.setdefault((p, n), {})["codec"] = True
        continue
    for n, body in re.findall(r"^type (\w+) struct \{\n(.*?)^\}", s, re.M | re.S):
        fs = []
        for l in body.split("\n"):
            m = re.match(r'\s+(\w+)\s+(\S+)\s+`protobuf(_oneof)?:"([^"]*)"', l)
            if m:
                t = m.group(2)
                for a, q in imp.items(): t = re.sub(r"(^|[*\]])%s\." % a, lambda k: k.group(1) + q + "v1.", t)
                fs.append((m.group(1), t, bool(m.group(3)), m.group(4)))
        msgs.setdefault((p, n), {})["fields"] = fs
        msgs[p, n]["impl"] = re.findall(r"^func \(\*%s\) (is\w+)\(\)" % n, s, re.M)
def qual(p, t):
    m = re.match(r"^([*\[\]]*)(\w+)$", t)
    if m and m.group(2)[0].isupper(): return m.group(1) + p + "." + m.group(2)
    return t
def wire(tag, t):
    w, n = tag.split(",")[:2]
    w = {"varint": 0, "fixed64": 1, "bytes": 2, "fixed32": 5}[w]
    return int(n) << 3 | w
out = []
kinds = []
for (p, n), d in sorted(msgs.items()):
    if not d.get("codec"): continue
    cases = []
    tags = []
    for f, t, oneof, tag in d["fields"]:
        if oneof:
            for (p2, n2), d2 in sorted(msgs.items()):
                if p2 == p and t in d2.get("impl", []):
                    wf, wt, _, wtag = d2["fields"][0]
                    wt = qual(p, wt)
                    b = wt.lstrip("*").split(".")
                    cases.append(f'm.{f} = &{p}.{n2}{{{wf}: {b[0]}{b[1]}(l+".{wf}")}}')
                    tags.append(wire(wtag, wt))
            continue
        t = qual(p, t)
        base = t.lstrip("*[]")
        opt = "oneof" in tag.split(",")
        isenum = tuple(base.split(".")) in enums
        tags.append(wire(tag, t))
        q = f'l+".{f}"'
        if base == "string" and t == "string": c = f"m.{f} = text({q})"
        elif t == "*string": c = f"m.{f} = ref(text({q}))"
        elif t == "[]string": c = f"m.{f} = texts({q})"
        elif t == "bool": c = f"m.{f} = flag({q})"
        elif t == "*bool": c = f"m.{f} = ref(flag({q}))"
        elif t == "uint64": c = f"m.{f} = num({q})"
        elif t == "*uint64": c = f"m.{f} = ref(num({q}))"
        elif t == "[]byte": c = f"m.{f} = []byte(text({q}))"
        elif t == "map[string]string": c = f"m.{f} = pairs({q})"
        elif isenum and t == base: c = f"m.{f} = {base}(enum({q}))"
        elif isenum: c = f"m.{f} = ref({base}(enum({q})))"
        elif t.startswith("[]*"): c = f"m.{f} = list({q}, {base.replace('.', '')})"
        else: c = f"m.{f} = {base.replace('.', '')}({q})"
        if t == "[]byte": c = f"if b := text({q}); {'true' if opt else 'b != \"\"'} {{ m.{f} = []byte(b) }}"
        cases.append(c)
    fn = p + n
    out.append(f"func {fn}(l string) *{p}.{n} {{\n\tm := &{p}.{n}{{}}\n\tn := sub({len(cases)+1})\n\tdepth++\n\tset_{fn}(m, vs.Choose(l+\"?\", n)-1, l)\n\tdepth--\n\treturn m\n}}\n")
    out.append(f"func set_{fn}(m *{p}.{n}, i int, l string) {{\n\tswitch i {{\n" + "".join(f"\tcase {i}:\n\t\t{c}\n" for i, c in enumerate(cases)) + "\t}\n}\n")
    kinds.append(f'\t{{"{p}.{n}", []uint64{{{", ".join(map(str, tags))}}}, func() msg {{ return &{p}.{n}{{}} }}, func() msg {{ return (*{p}.{n})(nil) }}, func(m msg, i int, l string) {{ set_{fn}(m.(*{p}.{n}), i, l) }}}},\n')
src = "// Code generated by tools/genh08.py. DO NOT EDIT.\n\npackage h08\n\nimport (\n" + "".join(f'\t{p} "{x}"\n' for p, x in sorted(pk.items())) + '\t"zntr.io/solid/zzverif/vs"\n)\n\nvar kinds = []kind{\n' + "".join(kinds) + "}\n\n" + "\n".join(out)
f = os.path.join(V, "harness/p/h08/messages.go")
open(f, "w").write(src)
os.system("gofmt -w " + f)
print(len(kinds), "messages")
