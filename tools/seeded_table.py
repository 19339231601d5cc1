"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
    "C04-pinv": "parts of the data that vanish, singular matrices",
    "C04-partial": "a step of the same kind with other options after the failure",
    "C05-polylist": "interrupts before the basis was ever evaluated",
    "C06-wholewindow": "the whole window handed to the integrator",
    "C06-tempvar": "names of the variables in the fingerprint",
    "C06-shape": "shapes in the fingerprint of coefficients",
    "C07-skipsame": "result files replaced or removed by the user, then computed again",
    "C10-jumpdims": "jump correction in two dimensions",
    "C12-describecache": "address dependent: found by some seeds only; more objects of one address",
    "C14-lazyspline": "cold starts of all threads in one function",
    "C15-cachelen": "an integrator used with another set before",
    "C16-setobs": "users with other observables",
    "C16-seterr": "process settings compared around every operation",
    "C03-fe": "free-energy histogram and profiles of all trajectories together",
    "C04-massfirst": "masses among the kept results",
    "C04-posmass": "masses among the kept results",
    "C06-boundary": "mesh boundaries with a short edge",
    "C10-sireverse": "state boundaries given in decreasing order",
    "C11-dtype": "initial conditions of other number types and more numbers than needed",
    "C12-splineempty": "all four calls of any basis, not only the basis of the model",
    "C16-fitkeep": "users with almost equal data",
    "C16-siclass": "users with a basis of the same kind and other parameters",
    "C10-ranktol": "rank tolerances placed inside the gaps of the spectrum",
    "C15-stamp": "variables that are not known at every point",
    "C16-truncmodel": "an integrator with a shorter kernel made from the model on the way",
    "C16-idinput": "the harness gave no answer; objects destroyed and addresses reused",
}
rows = ["| bug | needs | what breaks |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    rows.append("| %s%s | %s | %s |" % (b, " (*)" if b in FIRST_MISSED else "", *(str(m[k]).replace("|", "/") for k in ("needs", "what_it_breaks"))))
n = len(rows) - 2
text = "%d bugs; each is caught by the quick check of its property (the prefix of its name). Those marked (*) were\nmissed when first planted; the check was then extended:\n\n" % n
text += "\n".join("* %s: %s;" % kv for kv in sorted(FIRST_MISSED.items())) + "\n\n" + "\n".join(rows)
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
if "\nSEEDED\n" in s:
    s = s.replace("\nSEEDED\n", "\n<!-- seeded -->\n<!-- /seeded -->\n")
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n%s\n<!-- /seeded -->" % text, s, flags=re.S)
open(p, "w").write(s)
