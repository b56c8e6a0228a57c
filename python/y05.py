"""Y05: the native interpreter binding, compiled against a stand-in for TensorFlow Lite's
interpreter that guards its tensors and records what happens to it."""
import ctypes, importlib.machinery, importlib.util, os, struct, sys
from unittest import mock

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import pypbt  # noqa: E402
from pypbt import prop  # noqa: E402
import numpy as np  # noqa: E402

SO = os.environ["VERIF_NATIVE"]
loader = importlib.machinery.ExtensionFileLoader("interpreter_wrapper_lite", SO)
native = importlib.util.module_from_spec(importlib.util.spec_from_loader("interpreter_wrapper_lite", loader))
loader.exec_module(native)
lib = ctypes.CDLL(SO)

for n in ("larq_compute_engine.mlir._tf_tfl_flatbuffer", "larq_compute_engine.mlir.python.tflite_schema"):
    sys.modules[n] = mock.MagicMock()
sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"] = native
import larq_compute_engine.tflite.python as package  # noqa: E402
package.interpreter_wrapper_lite = native
from larq_compute_engine.tflite.python.interpreter import Interpreter  # noqa: E402

#        TfLiteType
TYPES = [(1, np.float32), (9, np.int8), (2, np.int32), (3, np.uint8), (6, np.bool_), (4, np.int64), (7, np.int16)]
UNKNOWN = [10, 11, 16]  # float16, float64, uint32: the binding knows no such type


class Tensor:
    def __init__(self, c, repeat=None):
        self.code, self.dtype = c.pick(TYPES)
        if c.coin(3):
            self.code, self.dtype = c.pick(UNKNOWN), None
        self.shape = tuple(c.weighted([1, 4, 4, 3, 2, 1]) if c.coin(90) else c.range(5, 9) for _ in range(c.weighted([1, 2, 4, 3, 4, 1])))
        self.scales, self.zps = [], []
        if c.coin(45):
            n = 1 if c.coin(70) else c.range(2, 4)
            self.scales = [float(np.float32(c.range(1, 4000) / 1024)) for _ in range(n)]
            zp = c.range(-128, 127) if n == 1 else 0
            self.zps = [zp] * (1 if c.coin(30) else n)
            if n > 1 and c.coin(15):
                self.zps[c.draw(len(self.zps))] = c.range(-5, 5)

    def pack(self):
        s = struct.pack("<ii%di" % len(self.shape), self.code, len(self.shape), *self.shape)
        s += struct.pack("<i%df" % len(self.scales), len(self.scales), *self.scales)
        if self.scales:
            s += struct.pack("<i%di" % len(self.zps), len(self.zps), *self.zps)
        return s

    def __repr__(self):
        return "%s%s%s" % (np.dtype(self.dtype).name if self.dtype else "type %d" % self.code, list(self.shape), " q%r/%r" % (self.scales, self.zps) if self.scales else "")

    def refused_zero_points(self):
        return len(self.scales) > 1 and any(self.zps)


def contents(rng, dtype, shape):
    if dtype is np.bool_:
        return rng.integers(0, 2, size=shape).astype(np.bool_)
    if dtype is np.float32:
        return rng.standard_normal(size=shape).astype(np.float32)
    return rng.integers(-120, 120, size=shape).astype(np.int64).astype(dtype)


def layout(c, a):
    """The same values in another memory layout."""
    k = c.weighted([4, 2, 2, 2, 1, 1, 1, 1])
    if k == 1:
        return np.asfortranarray(a), "fortran"
    if k == 2 and a.ndim:
        big = np.zeros([2 * d + 1 for d in a.shape], a.dtype)
        view = big[tuple(slice(1, None, 2) for _ in a.shape)][tuple(slice(0, d) for d in a.shape)]
        view[...] = a
        return view, "strided"
    if k == 3 and a.ndim:
        return np.ascontiguousarray(a[::-1])[::-1], "reversed"
    if k == 4:
        a = a.copy()
        a.flags.writeable = False
        return a, "read-only"
    if k == 5 and a.ndim > 1:
        p = list(range(a.ndim))
        c.shuffle(p)
        return np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p)), "transposed"
    if k == 6:
        raw = np.zeros(a.nbytes + 1, np.uint8)  # not aligned
        v = raw[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a
        if a.nbytes:
            v[...] = a
        return v, "unaligned"
    if k == 7 and a.ndim:
        return np.broadcast_to(a[:1], a.shape), "broadcast"
    return np.ascontiguousarray(a).reshape(a.shape), "plain"


def spoil(c, a):
    """An array that does not fit, or may not."""
    k = c.draw(12)
    if k == 0:
        return a.astype(c.pick([t for t in (np.float64, np.float16, np.uint16, np.uint32, np.uint64, np.complex64, np.int64, np.float32, np.int8, np.uint8, np.int32, np.bool_) if t != a.dtype]))
    if k == 1:
        return a.view(np.uint8 if a.dtype == np.int8 else np.int8 if a.dtype == np.uint8 else np.uint8 if a.dtype == np.bool_ else np.uint16 if a.dtype == np.int16 else
                      np.int32 if a.dtype == np.float32 else np.float32 if a.dtype == np.int32 else np.uint64) if a.ndim else a.astype(np.float64)
    if k == 2:
        return np.expand_dims(a, c.draw(a.ndim + 1))
    if k == 3:
        return a.reshape(-1)
    if k == 4:
        return np.swapaxes(a, 0, a.ndim - 1) if a.ndim > 1 else np.concatenate([a, a]) if a.ndim else a.reshape(1)
    if k == 5 and a.ndim:
        ax = c.draw(a.ndim)
        return np.concatenate([a, np.take(a, [0], axis=ax) if a.shape[ax] else np.zeros([1 if i == ax else d for i, d in enumerate(a.shape)], a.dtype)], axis=ax)
    if k == 6 and a.ndim and a.shape[0]:
        return a[1:]
    if k == 7:
        return a.astype(a.dtype.newbyteorder())
    if k == 8:
        return None
    if k == 9:
        return [[1, 2], [3]]
    if k == 10:
        return c.pick(["text", object(), {}, 3, 2.5, True, b"bytes", float("nan")])
    return a.tolist()


def read(i, t, f=None):
    buf = (ctypes.c_uint8 * 65536)()
    n = (f or lib.v_read)(i, t, buf, 65536)
    return bytes(buf[:n])


@prop
def Y05(c):
    tensors = [Tensor(c) for _ in range(c.range(1, 6))]
    ins = [c.draw(len(tensors)) for _ in range(c.weighted([1, 6, 4, 2]))]
    ins = list(dict.fromkeys(ins))  # no tensor is an input twice
    outs = [c.draw(len(tensors)) for _ in range(c.weighted([1, 6, 4, 2]))]
    flags = c.pick([1, 2]) if c.coin(3) else 0
    model = b"VRFY" + struct.pack("<ii", flags, len(tensors)) + b"".join(t.pack() for t in tensors)
    model += struct.pack("<i%di" % len(ins), len(ins), *ins) + struct.pack("<i%di" % len(outs), len(outs), *outs)
    if c.coin(3):
        model, flags = c.pick([b"", b"TFL3", b"VRF", model[1:]]), 1
    threads, ref, ind, xnn = c.range(1, 8), c.coin(), c.coin(), c.coin()
    c.desc("tensors %r in %r out %r flags %d threads %d ref %d indirect %d xnnpack %d" % (tensors, ins, outs, flags, threads, ref, ind, xnn))
    before = lib.v_made()
    whole = c.coin(30)  # through larq_compute_engine's own Interpreter
    try:
        it = Interpreter(bytes(bytearray(model)), threads, ref, ind, xnn) if whole else native.LiteInterpreter(bytes(bytearray(model)), threads, ref, ind, xnn)
    except Exception as e:
        if flags:
            c.label("refused model")
            return
        c.fail("a valid model is refused: %r" % e)
    if flags:
        c.fail("a model that cannot be loaded is accepted")
    if lib.v_made() != before + 1:
        c.fail("%d interpreters made" % (lib.v_made() - before))
    me = before
    if lib.v_threads(me) != threads:
        c.fail("%d threads instead of %d" % (lib.v_threads(me), threads))
    want = (10 if xnn else 0) + (1 if ref else 2 if ind else 0)
    if lib.v_resolver(me) != want:
        c.fail("resolver and implementation %d instead of %d (tens: default delegates, units: 0 default, 1 reference, 2 indirect; negative: operators missing or wrong)" % (lib.v_resolver(me), want))
    if lib.v_allocations(me) < 1:
        c.fail("tensors were not allocated")
    rng = np.random.default_rng(c.draw(1 << 20))
    shapes = {i: t.shape for i, t in enumerate(tensors)}

    def properties():
        for side, ids in (("input", ins), ("output", outs)):
            for name, expect, bad in (
                    ("types", lambda i: tensors[i].dtype and np.dtype(tensors[i].dtype), lambda i: tensors[i].dtype is None),
                    ("shapes", lambda i: shapes[i], lambda i: False),
                    ("scales", lambda i: None if not tensors[i].scales else tensors[i].scales[0] if len(tensors[i].scales) == 1 else tensors[i].scales, lambda i: False),
                    ("zero_points", lambda i: tensors[i].zps[0] if tensors[i].scales else None, lambda i: tensors[i].refused_zero_points())):
                refuse = any(bad(i) for i in ids)
                try:
                    got = getattr(it, "%s_%s" % (side, name))
                except Exception as e:
                    if refuse:
                        continue
                    c.fail("%s_%s raises %r" % (side, name, e))
                if refuse:
                    c.fail("%s_%s is %r although a tensor cannot be described" % (side, name, got))
                exp = [expect(i) for i in ids]
                if list(got) != exp or (name == "types" and any(not isinstance(x, np.dtype) for x in got)):
                    c.fail("%s_%s is %r instead of %r" % (side, name, got, exp))

    if c.coin(60):
        properties()
    kept = []
    ran = 0
    for step in range(c.weighted([1, 3, 3, 2, 1])):
        good = [contents(rng, tensors[i].dtype or np.float32, shapes[i]) for i in ins]
        args, names = [], []
        for a in good:
            b, n = layout(c, a)
            args.append(b)
            names.append(n)
        broken = c.coin(35)
        if broken:
            k = c.draw(4)
            if k == 0 or not args:
                if c.coin() and args:
                    args.pop(c.draw(len(args)))
                else:
                    args.insert(c.draw(len(args) + 1), args[c.draw(len(args))] if args else np.zeros(2, np.float32))
            else:
                i = c.draw(len(args))
                args[i] = spoil(c, args[i])
            if c.coin(10) and len(args) > 1:
                args.reverse()
        # What the inputs are as arrays decides whether they fit.
        fits, sure, arrays = len(args) == len(ins), True, []
        for i, a in zip(ins, args):
            try:
                x = np.asarray(a)
            except Exception:
                fits = False
                continue
            if tensors[i].dtype is None or x.dtype != tensors[i].dtype or x.shape != shapes[i]:
                fits = False
            arrays.append(x)
            if isinstance(a, (list, int, float, bool)) or x.dtype is not np.dtype(x.dtype.type):
                sure = False  # equal types that are not numpy's own object for it are refused
        c.desc("; predict %r" % [(str(getattr(a, "dtype", type(a).__name__)), getattr(a, "shape", ""), n) for a, n in zip(args, names + ["", ""])])
        expect = []
        fail_run = c.coin(4)
        lib.v_set_flags(me, 4 if fail_run else 0)
        for i in dict.fromkeys(outs):
            t = tensors[i]
            shape = shapes[i]
            if i not in ins and c.coin(5):  # a dynamic output
                shape = tuple(c.range(0, 4) for _ in range(c.range(0, 3)))
                c.label("dynamic output")
            data = contents(rng, t.dtype or np.float32, shape)
            raw = np.ascontiguousarray(data).tobytes()
            if t.dtype is None:
                continue
            lib.v_next(me, i, len(shape), (ctypes.c_int * len(shape))(*shape), raw, len(raw))
            expect.append((i, data, shape))
        expect = {i: (d, s) for i, d, s in expect}
        ran0 = lib.v_invokes(me)
        held = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        target = it.interpreter if whole else it
        try:
            got = target.predict(list(args))
        except Exception as e:
            got = e
        invoked = lib.v_invokes(me) - ran0
        if not lib.v_guards(me):
            c.fail("memory outside the tensors was written")
        if lib.v_flags(me) & 1024:
            c.fail("the model's bytes changed while its interpreter lives")
        for a, h in zip(args, held):
            if isinstance(a, np.ndarray) and not np.array_equal(a, h, equal_nan=a.dtype.kind == "f"):
                c.fail("an input array was changed")
        if not fits:
            c.label("refused input")
            if not isinstance(got, Exception):
                c.fail("inputs that do not fit are accepted")
            if invoked:
                c.fail("the model ran %d times on inputs that do not fit" % invoked)
            continue
        bad_out = any(tensors[i].dtype is None for i in outs)
        if fail_run or bad_out:
            if not isinstance(got, Exception):
                c.fail("a failed invocation, or an output that cannot be described, yields %r" % (got,))
            if invoked:
                for i, (d, s) in expect.items():
                    if not fail_run:
                        shapes[i] = s
            continue
        if isinstance(got, Exception):
            if not sure:
                continue
            c.fail("fitting inputs are refused: %r" % got)
        if invoked != 1:
            c.fail("the model ran %d times" % invoked)
        ran += 1
        for i, x in zip(ins, arrays):
            if read(me, i, lib.v_snap) != np.ascontiguousarray(x).tobytes():
                c.fail("tensor %d did not hold its input when the model ran" % i)
        for i, (d, s) in expect.items():
            shapes[i] = s
        if not isinstance(got, list) or len(got) != len(outs):
            c.fail("%r for %d outputs" % (got, len(outs)))
        for k, i in enumerate(outs):
            d, s = expect[i]
            g = got[k]
            if not isinstance(g, np.ndarray) or g.dtype != d.dtype or g.shape != s or not np.array_equal(g, d):
                c.fail("output %d is %r instead of %r" % (k, g, d))
            if not g.flags.owndata:
                c.label("output does not own its data")
            kept.append((g, d))
        if ran > 1:
            c.label("several runs")
        c.nontrivial()
        # Writing to a result changes neither the model nor another result.
        if got and c.coin(30):
            k = c.draw(len(got))
            state = read(me, outs[k])
            got[k][...] = 1
            if read(me, outs[k]) != state:
                c.fail("writing to a returned array changes the model's tensor")
            kept = [(g, d) for g, d in kept if g is not got[k]]
        for g, d in kept:
            if not np.array_equal(g, d):
                c.fail("an array returned earlier has changed")
        if c.coin(20):
            properties()
    if c.coin(40):
        del it
        try:
            del target
        except NameError:
            pass
        if lib.v_alive(me):
            c.fail("the interpreter outlives its Python object")
        for g, d in kept:
            if not np.array_equal(g, d):
                c.fail("a returned array does not survive its interpreter")


if __name__ == "__main__":
    sys.exit(pypbt.main())
