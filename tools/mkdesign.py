# part of gen.py: DESIGN.md from tools/design.py, properties, bounds, measured evidence and the planted changes
import glob, textwrap
from design import HEAD, METHOD, TAIL
out = [HEAD]
w = lambda t: "\n".join(textwrap.wrap(t, 120))
for p in PROPS:
    i = p["id"]
    cost = p.get("_cost", "")
    c = CHECKS.get(i)
    cfg = lambda l: ", ".join("%s-%d%s" % (x["backend"], x["digits"], "".join(" " + a for a in x.get("args", []) if a in ("pi", "few", "fft"))) for x in l)
    out.append("### %s %s\n\n%s\n" % (i, p["title"], w(p["statement"])))
    if c:
        out.append(w("*Method (%s, harness/%s.cpp):* %s" % (p["_tech"], c["harness"], METHOD.get(i, ""))))
        out.append("\n" + w("*Bounds:* " + BOUNDS.get(i, "") + "."))
        out.append("\n" + w("*Configurations:* quick %s%s." % (cfg(c["configs"]), ("; thorough also " + cfg(c["thorough_configs"])) if c.get("thorough_configs") else "")))
    out.append("\n" + w("*Beyond tests:* " + p["why_tests_cant"]) + "\n")
fixed = "\n".join("* " + l[7:].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed: "))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); n = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
text = "\n".join(out) + TAIL % dict(fixed=fixed, seeds="\n".join(rows))
open(V + "/DESIGN.md", "w").write(text)
