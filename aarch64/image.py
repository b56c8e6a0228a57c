"""Builds the LCE kernels of /repo for AArch64 as a static image for the interpreter."""
import hashlib, os, subprocess
from common import build as b

FLAGS = ["--target=aarch64-linux-gnu", "-std=c++17", "-w", "-D__x86_64__", "-nostdinc++", "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13",
         "-isystem", "/usr/include/x86_64-linux-gnu", "-fno-exceptions", "-fno-rtti", "-fno-vectorize", "-fno-slp-vectorize", "-fno-stack-protector",
         "-fno-asynchronous-unwind-tables", "-mno-outline-atomics", "-ffp-contract=off", "-DTFLITE_WITH_RUY"]
DATA = ("stderr", "stdout", "__dso_handle")


def image(sources, includes, key, name, opt="-O1"):
    """-> the path of the image without its suffix"""
    flags = FLAGS + [opt]
    for i in includes:
        flags += ["-I", i]
    objs = b.objects(sources, flags, key)
    h = hashlib.sha256("\0".join(objs + [open(__file__).read()]).encode()).hexdigest()[:24]
    out = os.path.join(b.BUILD, "bin", "%s.%s" % (name, h))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out + ".sym"):
        return out
    tmp = "%s.%d" % (out, os.getpid())
    und, dfn = set(), set()
    for line in b.run(["llvm-nm-18"] + objs).decode().splitlines():
        p = line.split()
        if len(p) == 2 and p[0] == "U":
            und.add(p[1])
        elif len(p) == 3:
            dfn.add(p[2])
    stubs = sorted(und - dfn - set(DATA))
    with open(tmp + ".s", "w") as f:
        f.write(".text\n")
        for k, n in enumerate(stubs):
            f.write(".globl %s\n.type %s,%%function\n%s: hlt #%d\n ret\n" % (n, n, n, k))
        for n in DATA:
            f.write(".section .bss.%s,\"aw\",%%nobits\n.globl %s\n.balign 8\n%s: .skip 8\n" % (n, n, n))
    b.run(["clang-18", "--target=aarch64-linux-gnu", "-c", tmp + ".s", "-o", tmp + ".o"])
    b.run(["ld.lld-18", "-static", "-nostdlib", "--image-base=0x200000000000", "-z", "norelro", "-e", "0"] + objs + [tmp + ".o", "-o", tmp + ".elf"])
    open(tmp + ".dis", "wb").write(b.run(["llvm-objdump-18", "-d", "--no-show-raw-insn", tmp + ".elf"]))
    open(tmp + ".stubs", "w").write("".join(n + "\n" for n in stubs))
    open(tmp + ".sym", "wb").write(b.run(["llvm-nm-18", tmp + ".elf"]))
    for s in (".elf", ".dis", ".stubs", ".sym"):  # the last one says that all are there
        os.rename(tmp + s, out + s)
    os.unlink(tmp + ".s")
    os.unlink(tmp + ".o")
    return out
