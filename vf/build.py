"""Build the extension from /repo's working tree into /verif/build/<hash>.

The key of a build is the SHA-256 of every source file that enters it, so a
build is reused only for byte-identical sources.  Nothing is written in /repo.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
ROOT = Path(__file__).resolve().parent.parent
BUILD = ROOT / "build"
PY = "/opt/macposts-venv/bin/python"
INCLUDE = "/opt/vp/submodules.cmake"

FLAVOURS = {
    # plain: what users get (asserts off), optimised lightly to build fast
    "plain": "-O1 -g0 -DNDEBUG",
    # asan: address + undefined sanitizers, for the memory-safety property
    "asan": "-O1 -g1 -DNDEBUG -fsanitize=address,undefined "
            "-fno-sanitize=vptr -fno-omit-frame-pointer "
            "-fno-sanitize-recover=undefined",
}


def source_files():
    out = []
    for base in ("src", "macposts"):
        for p in sorted((REPO / base).rglob("*")):
            if p.is_file() and "__pycache__" not in p.parts \
                    and p.suffix not in (".pyc", ".so"):
                out.append(p)
    out.append(REPO / "CMakeLists.txt")
    return out


def tree_hash(flavour):
    h = hashlib.sha256()
    h.update(FLAVOURS[flavour].encode())
    for p in source_files():
        h.update(str(p.relative_to(REPO)).encode() + b"\0")
        h.update(p.read_bytes() + b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def build(flavour="plain", log=sys.stderr):
    """Return the directory holding the built extension and package copy."""
    key = flavour + "-" + tree_hash(flavour)
    dest = BUILD / key
    if (dest / "OK").exists():
        return dest
    BUILD.mkdir(exist_ok=True)
    # keep only a few builds: they are big
    olds = sorted((p for p in BUILD.iterdir() if p.is_dir()),
                  key=lambda p: p.stat().st_mtime)
    for p in olds[:-14]:
        shutil.rmtree(p, ignore_errors=True)
    if dest.exists():
        shutil.rmtree(dest)
    work = dest / "cmake"
    work.mkdir(parents=True)
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CMAKE_ARGS", "PYTHONPATH"):
        env.pop(k, None)
    env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++",
               PYTHONDONTWRITEBYTECODE="1")
    cmds = [
        ["cmake", "-S", str(REPO), "-B", str(work), "-G", "Ninja",
         "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_PROJECT_INCLUDE=" + INCLUDE,
         "-DPYTHON_EXECUTABLE=" + PY, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
         "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF",
         "-DCMAKE_CXX_FLAGS=-w " + FLAVOURS[flavour]],
        ["cmake", "--build", str(work)],
    ]
    t0 = time.time()
    for c in cmds:
        r = subprocess.run(c, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
    so = list(work.glob("_macposts_ext*.so"))
    if len(so) != 1:
        raise BuildError("extension not built")
    shutil.move(str(so[0]), str(dest / so[0].name))
    # The package (pure Python part) is copied next to it, so that a check sees
    # one consistent snapshot and never writes byte code into /repo.
    shutil.copytree(REPO / "macposts", dest / "macposts",
                    ignore=shutil.ignore_patterns("_ext", "__pycache__"))
    shutil.rmtree(work)
    (dest / "OK").write_text(str(time.time() - t0))
    print("built %s in %.1f s" % (key, time.time() - t0), file=log)
    return dest


if __name__ == "__main__":
    for f in (sys.argv[1:] or ["plain"]):
        print(build(f))
