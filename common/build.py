"""Compiles harnesses from /repo's working tree into /verif/build, one object per
source file, reusing what an identical compilation left there."""
import os
import hashlib, os, subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "clang++-18"


class BuildError(Exception):
    pass


def tree_hash(dirs, suffixes=None):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = sorted(os.path.join(p, f) for p, ds, fs in os.walk(d) for f in fs
                           if "__pycache__" not in p and (suffixes is None or f.endswith(suffixes)))
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])
    return p.stdout


def objects(sources, flags, key, optional=()):
    """Compiles in parallel; `key` identifies everything the sources include."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def one(src):
        h = hashlib.sha256(("\0".join([src, key, CXX] + flags)).encode() + open(src, "rb").read()).hexdigest()[:24]
        o = os.path.join(BUILD, "obj", os.path.basename(src) + "." + h + ".o")
        if not os.path.exists(o):
            tmp = "%s.%d.tmp" % (o, os.getpid())
            run([CXX] + flags + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        return o

    def safe(src):
        try:
            return one(src)
        except BuildError:
            if src in optional:
                return None
            raise
    with ThreadPoolExecutor(8) as ex:
        return [o for o in ex.map(safe, sources) if o]


def link(objs, flags, name):
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    h = hashlib.sha256("\0".join(sorted(objs) + flags).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", name + "." + h)
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        run([CXX] + objs + flags + ["-o", tmp])
        os.rename(tmp, exe)
    return exe
