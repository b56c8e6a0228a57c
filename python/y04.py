"""Y04: batched prediction against running every sample on its own."""
import contextlib, io, os, sys, zlib
from unittest import mock

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import pypbt  # noqa: E402
from pypbt import prop  # noqa: E402
import numpy as np  # noqa: E402

for n in ("larq_compute_engine.mlir._tf_tfl_flatbuffer", "larq_compute_engine.mlir.python.tflite_schema", "larq_compute_engine.tflite.python.interpreter_wrapper_lite"):
    sys.modules[n] = mock.MagicMock()
from larq_compute_engine.tflite.python import interpreter as I  # noqa: E402
from larq_compute_engine.tflite.python import interpreter_base as IB  # noqa: E402

TYPES = [np.float32, np.int8, np.int32, np.uint8, np.bool_, np.int64, np.int16]


class Native:
    """Stands for the native interpreter: each output is a distinct function of all inputs."""
    PROPS = ["input_types", "input_shapes", "input_scales", "input_zero_points", "output_types", "output_shapes", "output_scales", "output_zero_points"]

    def __init__(self, ins, outs, fail_at=None):
        self.ins, self.outs, self.seen, self.fail_at = ins, outs, [], fail_at
        for p in self.PROPS:
            setattr(self, p, [(p, i) for i in range(len(ins if p.startswith("input") else outs))])
        self.output_shapes = [(1,) + s for s, _ in outs]
        self.input_shapes = [(1,) + s for s, _ in ins]

    @staticmethod
    def value(inputs, k, shape, dt):
        h = k
        for a in inputs:
            h = zlib.crc32(np.ascontiguousarray(a).tobytes(), h)
        h = np.uint64(h)
        n = int(np.prod(shape, dtype=np.int64))
        v = (np.arange(n, dtype=np.uint64) * np.uint64(2654435761) + h) % np.uint64(251)
        return (v % 2 if dt is np.bool_ else v).astype(dt).reshape((1,) + shape)

    def predict(self, inputs):
        if not isinstance(inputs, list):
            raise TypeError("inputs of type %s" % type(inputs))
        for a, (s, dt) in zip(inputs, self.ins):
            if not isinstance(a, np.ndarray) or a.shape != (1,) + s or a.dtype != dt:
                raise TypeError("input %r instead of %r" % (getattr(a, "shape", a), (1,) + s))
        if len(inputs) != len(self.ins):
            raise TypeError("%d inputs" % len(inputs))
        if self.fail_at == len(self.seen):
            raise RuntimeError("native failure")
        self.seen.append([a.copy() for a in inputs])
        return [self.value(inputs, k, s, dt) for k, (s, dt) in enumerate(self.outs)]


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and (a == b).all()


def shape(c):
    return tuple(c.range(1, 4) for _ in range(c.range(0, 3)))


@prop
def Y04(c):
    ins = [(shape(c), c.pick(TYPES)) for _ in range(c.range(1, 4))]
    outs = [(shape(c), c.pick(TYPES)) for _ in range(c.range(1, 4))]
    n = [c.range(1, 7), c.range(1, 40), c.range(1, 400)][c.weighted([85, 12, 3])]
    rng = np.random.default_rng(c.draw(1 << 20))
    few = c.coin(30)  # samples that repeat
    xs = [(rng.integers(0, 2 if few or dt is np.bool_ else 100, size=(n,) + s)).astype(dt) for s, dt in ins]
    kinds = ["list", "iterator of lists", "iterator of tuples", "generator", "zip"]
    if len(ins) == 1:
        kinds += ["array", "array", "iterator of arrays", "iter(array)"]
    kinds += ["tuple", "dict", "string"] if c.coin(4) else []
    kind = c.pick(kinds)
    verbose = c.pick([0, 0, 0, 1, 2])
    native = Native(ins, outs, fail_at=c.draw(n) if c.coin(5) else None)
    if c.coin():
        args = (b"model%d" % c.draw(10), c.range(1, 8), c.coin(), c.coin(), c.coin())
        lite = mock.MagicMock(return_value=native)
        got = {}
        k = c.range(1, 5)
        names = ["flatbuffer_model", "num_threads", "use_reference_bconv", "use_indirect_bgemm", "use_xnnpack"]
        with mock.patch.object(sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"], "LiteInterpreter", lite), \
                mock.patch.object(sys.modules["larq_compute_engine.tflite.python"], "interpreter_wrapper_lite",
                                  sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"], create=True):
            p = I.Interpreter(*args[:k], **dict(zip(names[k:], args[k:])))
        got = dict(zip(names, lite.call_args.args))
        got.update(lite.call_args.kwargs)
        if lite.call_count != 1 or got != dict(zip(names, args)):
            c.fail("the native interpreter is made with %r instead of %r" % (lite.call_args_list, args))
    else:
        p = IB.InterpreterBase(native)
    c.desc("%d samples as %s, inputs %s, outputs %s%s" % (n, kind, [(s, d.__name__) for s, d in ins], [(s, d.__name__) for s, d in outs], " verbose" * verbose))
    c.label(kind)
    if c.coin(30):  # other memory layouts
        xs = [np.asfortranarray(x) if c.coin() else x[::-1].copy()[::-1] for x in xs]
    before = [x.copy() for x in xs]
    samples = [[x[i] for x in xs] for i in range(n)]
    if kind == "array":
        arg = xs[0]
    elif kind == "list":
        arg = list(xs)
    elif kind == "iterator of lists":
        arg = iter(samples)
    elif kind == "iterator of tuples":
        arg = iter([tuple(s) for s in samples])
    elif kind == "generator":
        arg = ((s if len(s) > 1 or not c_single else s[0]) for c_single in [c.coin()] for s in samples)
    elif kind == "zip":
        arg = zip(*xs)
    elif kind == "iterator of arrays":
        arg = iter([np.asarray(x) for x in xs[0]])
    elif kind == "iter(array)":
        arg = iter(xs[0])
    else:
        bad = {"tuple": tuple(xs), "dict": {"x": xs[0]}, "string": "x"}[kind]
        try:
            p.predict(bad)
        except ValueError:
            return
        c.fail("input of type %s is accepted" % kind)
    # elements of rank 0 come out of an array iteration as scalars, which are not arrays
    if any(s == () for s, _ in ins) and kind in ("iter(array)", "generator") and len(ins) == 1:
        c.discard()
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            r = p.predict(arg, verbose=verbose) if c.coin() else p.predict(arg, verbose)
    except RuntimeError as e:
        if native.fail_at is None or str(e) != "native failure":
            raise
        c.label("native failure")
        return
    if native.fail_at is not None:
        c.fail("a failure of the native interpreter is swallowed")
    want = [np.concatenate([Native.value([v.reshape((1,) + s) for v, (s, _) in zip(smp, ins)], k, so, dt) for smp in [[b[i] for b in before] for i in range(n)]])
            for k, (so, dt) in enumerate(outs)]
    if len(outs) == 1:
        if not same(r, want[0]):
            c.fail("the result differs: %r instead of %r" % (r, want[0]))
    else:
        if not isinstance(r, list) or len(r) != len(want):
            c.fail("%s of %s instead of a list of %d" % (type(r).__name__, len(r), len(want)))
        for k, (a, b) in enumerate(zip(r, want)):
            if not same(a, b):
                c.fail("output %d differs: %r instead of %r" % (k, a, b))
    if len(native.seen) != n:
        c.fail("%d runs for %d samples" % (len(native.seen), n))
    for x, b in zip(xs, before):
        if not same(x, b):
            c.fail("the caller's input was changed")
    for q in Native.PROPS:
        if getattr(p, q) != getattr(native, q):
            c.fail("%s is %r" % (q, getattr(p, q)))
    c.nontrivial(n > 1)


if __name__ == "__main__":
    sys.exit(pypbt.main())
