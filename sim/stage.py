"""Stage a private copy of /repo's current working tree and build what it needs.

The package is copied (without build products) into a scratch directory, the Fortran
extension is compiled from the copied source (same command as the repository's own
build) and the disk simulator (fsim.c) is compiled.  Compilation results are cached by
content under /verif/.cache; a missing cache only costs time.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
PKG = "VolterraBasis"
CACHE = os.path.join(VERIF, ".cache")


def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(sys.version.encode())
    return h.hexdigest()[:32]


def _cached(key, build):
    """Return the path of a cached product, building it when needed (atomic)."""
    os.makedirs(CACHE, exist_ok=True)
    dst = os.path.join(CACHE, key)
    if os.path.exists(dst):
        return dst
    tmp = tempfile.mkdtemp(prefix="vbbuild_")
    try:
        out = build(tmp)
        part = dst + ".%d.part" % os.getpid()
        shutil.copy2(out, part)
        os.replace(part, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def build_fkernel(src, flags=None):
    name = "fkernel" + sysconfig.get_config_var("EXT_SUFFIX")

    def build(tmp):
        shutil.copy2(src, os.path.join(tmp, "fkernel.f90"))
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ.get("PATH", ""))
        env.pop("LD_PRELOAD", None)
        if flags:
            env["FFLAGS"] = flags
        r = subprocess.run([PY, "-m", "numpy.f2py", "-c", "fkernel.f90", "-m", "fkernel", "-llapack", "--build-dir", os.path.join(tmp, "b")], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = os.path.join(tmp, name)
        if r.returncode != 0 or not os.path.exists(out):
            raise RuntimeError("Fortran build failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        return out

    return _cached("fkernel-" + ("chk-" if flags else "") + _sha(src) + ".so", build), name


CHECKED = "-O1 -fcheck=bounds -finit-real=snan -finit-integer=1000003"


def build_fsim():
    src = os.path.join(VERIF, "sim", "fsim.c")

    def build(tmp):
        out = os.path.join(tmp, "fsim.so")
        subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", out, src, "-ldl"], check=True)
        return out

    return _cached("fsim-" + _sha(src) + ".so", build)


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith((".py", ".f90")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Stage:
    """Scratch directory with the staged package; removed by close()."""

    def __init__(self, repo=REPO, checked=False):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="vbsim_", dir=base)
        try:
            self.pkgdir = os.path.join(self.dir, "stage", PKG)
            shutil.copytree(os.path.join(repo, PKG), self.pkgdir, ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "build"))
            so, name = build_fkernel(os.path.join(self.pkgdir, "fkernel.f90"))
            shutil.copy2(so, os.path.join(self.pkgdir, name))
            if checked:  # a second build in which a read outside an array ends the process and local variables start as garbage
                shutil.copy2(build_fkernel(os.path.join(self.pkgdir, "fkernel.f90"), CHECKED)[0], os.path.join(self.dir, "fkernel_checked.so"))
            self.fsim = os.path.join(self.dir, "fsim.so")
            shutil.copy2(build_fsim(), self.fsim)
            self.hash = tree_hash(self.pkgdir)
            self.scratch = os.path.join(self.dir, "runs")
            os.makedirs(self.scratch)
        except BaseException:
            self.close()
            raise

    @property
    def path(self):
        return os.path.join(self.dir, "stage")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def setup():
    s = Stage(checked=True)
    print("staged", s.hash)
    s.close()


if __name__ == "__main__":
    setup()
