"""Writes the generated part of DESIGN.md (section 3's table of entries and section 5's table of seeds)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "vlib"))
import spec

class D(dict):
    def __missing__(self, k):
        return "{" + k + "}"

def fill(text, params):
    return re.sub(r"\{(\w+)\}", lambda m: str(params.get(m.group(1), "the harness's default of " + m.group(1))), text)

def entries():
    props = {}
    for line in open(os.path.join(root, "properties.jsonl")):
        p = json.loads(line)
        props[p["id"]] = p["title"]
    out = []
    for pid in sorted(spec.CHECKS):
        c = spec.CHECKS[pid]
        out.append("**%s — %s.** %s." % (pid, props[pid], c["note"][:1].upper() + c["note"][1:]))
        out.append("")
        for e in c["entries"]:
            q, t = fill(e.bounds, e.quick), fill(e.bounds, e.thorough)
            pre = ""
            if e.preempt is not None:
                pre = " Preemptions: %s%s%s." % (e.quick.get("preempt", e.preempt), " (thorough: %s)" % e.thorough["preempt"] if "preempt" in e.thorough else "", "; data races checked" if e.races else "")
            deeper = "" if q == t else " *Thorough:* " + t + "."
            out.append("* `%s` %s: %s.%s%s" % (e.harness, e.entry, q, deeper, pre))
        if c["outside"]:
            out.append("* Outside: %s." % c["outside"])
        for a in c["assumptions"]:
            out.append("* Assumes: %s." % a)
        out.append("")
    return "\n".join(out)

def seeds():
    out = ["| Planted bug | Needs | Breaks | Caught by |", "|---|---|---|---|"]
    base = os.path.join(root, "seeded")
    notes = {}
    path = os.path.join(root, "tools", "seeds", "caught.json")
    if os.path.exists(path):
        notes = json.load(open(path))
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), notes.get(d, m["property"])))
    return "\n".join(out)

path = os.path.join(root, "DESIGN.md")
text = open(path).read()
for name, make in (("entries", entries), ("seeds", seeds)):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + "\n" + make() + "\n" + text[j:]
open(path, "w").write(text)
