"""Make and confirm planted bugs.

usage: plant.py SPECS.py [ID ...]

SPECS.py defines BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new), ...], demo (python source).  Each one is applied to a
scratch copy of /repo under /tmp, the stable tests and the demonstration are
run with and without it, and only then is it written to /verif/seeded/<id>/.
"""
import json, os, runpy, shutil, subprocess, sys

PY = "/opt/venv/bin/python"
CLEAN, WORK = "/tmp/wc", "/tmp/w"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")

DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\nexport PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def fresh(d):
    if not os.path.isdir(d):
        subprocess.check_call(["cp", "-a", "/repo", d])
    head = sh(["git", "rev-parse", "HEAD"], "/repo").stdout.strip()
    sh(["git", "fetch", "-q", "/repo"], d)
    sh(["git", "reset", "-q", "--hard", head], d)


def build_f(d):
    b = d + "/build/plant"
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    shutil.copy(d + "/VolterraBasis/fkernel.f90", b)
    r = sh([PY, "-m", "numpy.f2py", "-c", "fkernel.f90", "-m", "fkernel", "-llapack", "--build-dir", b + "/meson"], b)
    so = [f for f in os.listdir(b) if f.endswith(".so")]
    if not so:
        raise SystemExit("build failed " + r.stdout[-2000:] + r.stderr[-2000:])
    shutil.copy(b + "/" + so[0], d + "/VolterraBasis/" + so[0])


def tests(d):
    out = "/tmp/plant_junit.xml"
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:benchmark", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + out, "tests/test_basis.py"], d)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).iter("testcase"):
        if len(c) == 0:
            ok.add(c.get("classname") + "::" + c.get("name"))
    return STABLE - ok


def main():
    specs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    fresh(CLEAN)
    for s in specs:
        if want and s["id"] not in want:
            continue
        fresh(WORK)
        f90 = False
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(WORK, "VolterraBasis", f)
            src = open(p).read()
            if src.count(old) != 1:
                bad = "edit in %s matches %d times: %r" % (f, src.count(old), old[:60])
                break
            open(p, "w").write(src.replace(old, new))
            f90 |= f.endswith("f90")
        if bad:
            print(s["id"], "FAILED:", bad)
            continue
        if f90:
            build_f(WORK)
        tmp = "/tmp/plant/" + s["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(s["demo"].lstrip())
        open(tmp + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(tmp + "/demo.sh", 0o755)
        r0 = sh(["bash", tmp + "/demo.sh"], CLEAN)
        r1 = sh(["bash", tmp + "/demo.sh"], WORK)
        miss = tests(WORK)
        diff = sh(["git", "diff"], WORK).stdout
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(s["id"], "OK" if ok else "FAILED", "demo clean rc=%d, patched rc=%d, stable tests lost: %s" % (r0.returncode, r1.returncode, sorted(miss)), (r1.stderr.strip().splitlines() or [""])[-1][:150])
        if not ok:
            print("   ", r0.stderr[-600:])
        else:
            d = "/verif/seeded/" + s["id"]
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(tmp, ignore_errors=True)
        if f90:
            fresh(WORK)
            build_f(WORK)


main()
