"""Builds the LCE kernels of /repo for Armv7-A as static images for the interpreter."""
import hashlib, os, subprocess
from common import build as b

D = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["--target=armv7-linux-gnueabihf", "-mfpu=neon", "-std=c++17", "-w", "-D__x86_64__", "-D__ILP32__", "-nostdinc++", "-isystem", os.path.join(D, "include"),
         "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu",
         "-fno-exceptions", "-fno-rtti", "-fno-vectorize", "-fno-slp-vectorize", "-fno-stack-protector", "-fno-asynchronous-unwind-tables",
         "-fno-threadsafe-statics", "-ffp-contract=off", "-DTFLITE_WITH_RUY"]
DATA = ("stderr", "stdout", "__dso_handle")


def image(sources, includes, key, name, thumb, opt="-O1"):
    """-> the path of the image without its suffix"""
    flags = FLAGS + [opt, "-mthumb" if thumb else "-marm"]
    for i in includes:
        flags += ["-I", i]
    objs = b.objects(sources + [os.path.join(D, "guest.cc")], flags, key)
    h = hashlib.sha256("\0".join(objs + [open(__file__).read(), str(thumb)]).encode()).hexdigest()[:24]
    out = os.path.join(b.BUILD, "bin", "%s.%s" % (name, h))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out + ".sym"):
        return out
    tmp = "%s.%d" % (out, os.getpid())
    und, dfn = set(), set()
    for line in b.run(["llvm-nm-18"] + objs).decode().splitlines():
        p = line.split()
        if len(p) == 2 and p[0] == "U":
            und.add(p[1])
        elif len(p) == 3:
            dfn.add(p[2])
    stubs = sorted(und - dfn - set(DATA))
    with open(tmp + ".s", "w") as f:
        f.write(".syntax unified\n.text\n%s\n.align 2\n" % (".thumb" if thumb else ".arm"))
        for n in stubs:
            f.write(".globl %s\n.type %s,%%function\n%s%s: nop\n bx lr\n" % (n, n, ".thumb_func\n" if thumb else "", n))
        for n in DATA:
            f.write(".section .bss.%s,\"aw\",%%nobits\n.globl %s\n.balign 4\n%s: .skip 4\n" % (n, n, n))
    b.run(["clang-18", "--target=armv7-linux-gnueabihf", "-c", tmp + ".s", "-o", tmp + ".o"])
    b.run(["ld.lld-18", "-static", "-nostdlib", "--image-base=%#x" % (0x11000000 if thumb else 0x10000000), "-z", "norelro", "-e", "0"] + objs + [tmp + ".o", "-o", tmp + ".elf"])
    open(tmp + ".dis", "wb").write(b.run(["llvm-objdump-18", "-d", "--no-show-raw-insn", tmp + ".elf"]))
    open(tmp + ".stubs", "w").write("".join(n + "\n" for n in stubs))
    # llvm-nm leaves out the lowest bit of Thumb functions' addresses.
    syms = b.run(["llvm-readelf-18", "-sW", tmp + ".elf"]).decode().splitlines()
    with open(tmp + ".sym", "w") as f:
        for line in syms:
            p = line.split()
            if len(p) >= 8 and p[0].endswith(":") and p[0][:-1].isdigit() and p[6] != "UND":
                f.write("%s %s\n" % (p[1], p[7]))
    for s in (".elf", ".dis", ".stubs", ".sym"):  # the last one says that all are there
        os.rename(tmp + s, out + s)
    os.unlink(tmp + ".s")
    os.unlink(tmp + ".o")
    return out
