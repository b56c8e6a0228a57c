"""Y01: what the Python converter hands to the native converter, and what it returns."""
import functools, itertools, os, sys, tempfile, warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from y02 import *  # noqa: E402,F403
import y02  # noqa: E402
from unittest import mock  # noqa: E402
from larq_compute_engine.mlir.python import converter  # noqa: E402
from tensorflow.core.protobuf import saved_model_pb2  # noqa: E402

tf.get_logger().setLevel("ERROR")
from tensorflow.python.autograph.core import config as ag  # noqa: E402

# tracing these without source conversion changes nothing for the models here and is much faster
ag.CONVERSION_RULES = tuple(ag.DoNotConvert(n) for n in ("tf_keras", "keras", "y01", "__main__")) + tuple(ag.CONVERSION_RULES)
K = tf.keras
pypbt.PROPS.clear()
REAL_SAVE = K.Model.save


class NativeError(Exception):
    pass


def write_saved_model(path, version, text=False):
    m = saved_model_pb2.SavedModel()
    m.saved_model_schema_version = version
    g = m.meta_graphs.add()
    g.meta_info_def.tags.append("serve")
    os.makedirs(path, exist_ok=True)
    if text:
        from google.protobuf import text_format
        with open(os.path.join(path, "saved_model.pbtxt"), "w") as f:
            f.write(text_format.MessageToString(m))
    else:
        with open(os.path.join(path, "saved_model.pb"), "wb") as f:
            f.write(m.SerializeToString())


class Stub:
    """Both native entry points: remember the call, answer with a given model or fail."""

    def __init__(self, reply, fail_saved, fail_graph):
        self.reply, self.fail, self.calls, self.saved = reply, {"saved": fail_saved, "graph": fail_graph}, [], 0

    def convert_saved(self, *a, **k):
        if k:
            raise TypeError("the native function has no keyword arguments: %s" % list(k))
        have = os.path.exists(os.path.join(a[0], "saved_model.pb")) or os.path.exists(os.path.join(a[0], "saved_model.pbtxt"))
        self.calls.append(("saved", a, have))
        return self.answer("saved")

    def convert_graph(self, *a, **k):
        if k:
            raise TypeError("the native function has no keyword arguments: %s" % list(k))
        self.calls.append(("graph", a, None))
        return self.answer("graph")

    def answer(self, which):
        if self.fail[which]:
            raise NativeError("native failure")
        return self.reply


def options(c):
    """-> (keyword arguments, why they are to be refused or None)"""
    o, bad = {}, None
    for k in ("inference_input_type", "inference_output_type"):
        if c.coin(60):
            o[k] = c.pick([tf.float32, tf.int8, tf.int8])
            if c.coin(5):
                o[k] = c.pick([tf.uint8, tf.int16, tf.float16, tf.int32, tf.bool, None])
                bad = k
    if c.coin(60):
        o["target"] = c.pick(["arm", "xcore"])
        if c.coin(7):
            o["target"] = c.pick(["x86", "ARM", "", "arm64", None])
            bad = "target"
    if c.coin(35):
        o["experimental_default_int8_range"] = c.pick([(-3.0, 3.0), (0.0, 6.0), (-1.5, 2.25), (-6, 6), (0, 0), (0.0, 1e-3), None])
    return o, bad


def want(o):
    d = dict(inference_input_type=tf.float32, inference_output_type=tf.float32, target="arm", experimental_default_int8_range=None)
    d.update(o)
    return d


def expected(c, st, o, modify):
    """The result wanted for a native reply: (model, plans) to compare, or None for a refusal."""
    d = want(o)
    i, j = d["inference_input_type"].name, d["inference_output_type"].name
    if not modify or (i == "float32" and j == "float32"):
        return ("same", None)
    try:
        old = unpack(st.reply)
        return (old, {0: plan_io(old, i, j)})
    except Refused:
        return None


def check_result(c, r, e, st):
    if e[0] == "same":
        if bytes(r) != st.reply:
            c.fail("the converted model is not returned as it is")
        return
    new = unpack(r)
    validate(new)
    compare(c, e[0], new, e[1])


def reply(c):
    m, text = gen(c, False) if c.coin(70) else (None, "bytes")
    return (pack(m) if m else bytes(c.draw(256) for _ in range(c.range(1, 8)))), text


def attempt(f):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(), None
    except (ValueError, RuntimeError, NativeError) as e:
        return None, e


def run(c, st, f):
    with mock.patch.object(converter, "convert_saved_model_to_tflite_flatbuffer", st.convert_saved), \
            mock.patch.object(converter, "convert_graphdef_to_tflite_flatbuffer", st.convert_graph):
        if c.coin(3):
            with tf.Graph().as_default():
                return attempt(f) + (True,)
        return attempt(f) + (False,)


@prop
def Y01_saved(c):
    o, bad = options(c)
    rep, text = reply(c)
    quantized = text != "bytes"
    if not quantized:  # a modification needs a real model
        o.pop("inference_input_type", None), o.pop("inference_output_type", None)
        bad = bad if bad == "target" else None
    st = Stub(rep, c.coin(5), False)
    version = c.pick([1, 1, 1, 2, 0, 3])
    c.desc("saved model version %d, %s, reply %s%s" % (version, {k: getattr(v, "name", v) for k, v in o.items()}, text, " fails" * st.fail["saved"]))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, c.pick(["m", "sub/dir", "with space"]))
        write_saved_model(path, version, c.coin(10))
        arg = path if c.coin(70) else __import__("pathlib").Path(path)
        r, e, graph_mode = run(c, st, lambda: converter.convert_saved_model(arg, **o))
    if bad or graph_mode or version not in (1, 2):
        c.label("refused")
        if e is None or isinstance(e, NativeError):
            c.fail("not refused although %s" % (bad or ("graph mode" if graph_mode else "version")))
        if st.calls:
            c.fail("refused only after the native conversion")
        return
    saved_call(c, st, o, version, path, True)
    finish(c, st, o, r, e, quantized, True)


def saved_call(c, st, o, version, path, present):
    d = want(o)
    calls = [x for x in st.calls if x[0] == "saved"]
    if len(calls) != 1:
        c.fail("%d native calls" % len(calls))
    a = calls[0][1]
    expect = (path, ["serve"], ["serving_default"], version, d["target"], d["experimental_default_int8_range"])
    if path is None:
        expect = (a[0],) + expect[1:]
    if tuple(a) != expect or not isinstance(a[0], str):
        c.fail("the native converter is called with %r instead of %r" % (a, expect))
    if present and not calls[0][2]:
        c.fail("there is no saved model at %s during the conversion" % a[0])


def finish(c, st, o, r, e, quantized, modify):
    c.nontrivial(quantized)
    if st.fail[st.calls[-1][0]]:
        if not isinstance(e, NativeError):
            c.fail("the native failure becomes %r" % (e or "a result"))
        return
    exp = expected(c, st, o, modify) if quantized else ("same", None)
    if exp is None:
        if e is None:
            c.fail("not refused")
        return
    if e is not None:
        c.fail("refused: %s" % e)
    check_result(c, r, exp, st)


class Custom(K.Model):
    def __init__(self):
        super().__init__()
        self.d = K.layers.Dense(3)

    @tf.function(input_signature=[tf.TensorSpec([None, 4], tf.float32)])
    def call(self, x):
        return self.d(x)


def weights(m, seed):
    rng = np.random.default_rng(seed)
    m.set_weights([rng.integers(-2, 3, size=w.shape).astype(w.dtype) for w in m.get_weights()])
    return m


@functools.lru_cache(maxsize=200)
def keras_model(key):
    """A model for a tuple of small numbers."""
    kind, nin, shape, batch, nout, quant, seed, dt = key
    K.backend.clear_session()
    if kind == 1:
        m = Custom()
        m(tf.zeros([1, 4]))
        return weights(m, seed)
    if kind == 2:  # every input has its own shape
        ins = [K.Input(batch_shape=b, dtype=["float32", "int32"][dt if i == 0 else 0]) for i, b in enumerate(shape)]
        outs = [K.layers.Lambda(lambda v, i=i: tf.cast(v, tf.float32) * float(i + 2) + 1.0)(x) for i, x in enumerate(ins)]
        return K.Model(ins, outs)
    shapes = [(4,), (5, 5, 3), (None, 4), (6,), ()][shape]
    ins = []
    for i in range(nin):
        ins.append(K.Input(shape=shapes, batch_size=[None, 1, 3][batch], dtype=["float32", "int32"][dt if i == 0 else 0], name="in_%d" % i if seed % 2 else None))
    xs = [tf.cast(x, tf.float32) if x.dtype != tf.float32 else x for x in ins]
    if len(shapes) == 3:
        ys = [K.layers.Conv2D(2, 3, padding="same")(x) for x in xs]
    elif shapes == ():
        ys = [x * 2.0 + float(i) for i, x in enumerate(xs)]
    else:
        ys = [K.layers.Dense(3)(x) for x in xs]
    y = ys[0] if len(ys) == 1 else K.layers.Concatenate()([tf.expand_dims(v, -1) for v in ys] if shapes == () else ys)
    if quant == 1:
        y = tf.quantization.fake_quant_with_min_max_args(y, -2.0, 2.0)
    elif quant == 2:
        y = K.layers.Lambda(lambda v: tf.quantization.fake_quant_with_min_max_vars(v, -1.0, 1.0))(y)
    elif quant == 3:  # inside a function of the graph's library
        y = K.layers.Lambda(lambda v: tf.while_loop(lambda i, t: i < 1, lambda i, t: (i + 1, tf.quantization.fake_quant_with_min_max_args(t, -2.0, 2.0)), [0, v])[1])(y)
    elif quant == 4:
        y = K.layers.Lambda(lambda v: (tf.raw_ops.QuantizeAndDequantizeV2 if seed else lambda **k: tf.raw_ops.QuantizeAndDequantizeV3(num_bits=8, **k))(input=v, input_min=-2.0, input_max=2.0))(y)
    outs = [y] + [y * float(k + 2) + float(k) for k in range(1, nout)]
    return weights(K.Model(ins, outs if nout > 1 else y), seed)


@prop
def Y01_keras(c):
    o, bad = options(c)
    key = (c.weighted([90, 10]), c.weighted([60, 30, 10]) + 1, c.weighted([40, 30, 10, 10, 10]), c.weighted([70, 15, 15]), c.weighted([60, 30, 10]) + 1,
           c.weighted([60, 10, 10, 10, 10]), c.draw(2), c.weighted([85, 15]))
    if c.coin(25):
        # an unspecified dimension at any position, of any of the inputs
        some = lambda p: None if c.coin(p) else c.range(1, 4)  # noqa: E731
        shapes = tuple((some(70),) + tuple(some(0) for _ in range(c.weighted([10, 20, 20, 30, 20]))) for _ in range(c.weighted([50, 35, 15]) + 1))
        if c.coin(40):
            i = c.draw(len(shapes))
            if len(shapes[i]) > 1:
                j = c.range(1, len(shapes[i]) - 1)
                shapes = shapes[:i] + (shapes[i][:j] + (None,) + shapes[i][j + 1:],) + shapes[i + 1:]
        key = (2, len(shapes), shapes, 0, len(shapes), 0, 0, key[7])
    m = keras_model(key)
    rep, text = reply(c)
    quantized = text != "bytes"
    if not quantized:
        o.pop("inference_input_type", None), o.pop("inference_output_type", None)
        bad = bad if bad == "target" else None
    st = Stub(rep, c.coin(45), c.coin(5))
    broken = c.weighted([88, 4, 4, 4])  # 1: not a model, 2: mixed precision, 3: saving fails
    arg = m
    if broken == 1:
        arg = c.pick(["model.h5", None, b"x", K.layers.Dense(2)])
        bad = "not a model"
    c.desc("model %s, %s, reply %s, %s" % (key, {k: getattr(v, "name", v) for k, v in o.items()}, text, (st.fail, broken)))
    dirs = []

    def save(self, path, *a, **k):
        fmt = k.get("save_format", a[2] if len(a) > 2 else None)
        if fmt != "tf":
            raise TypeError("saved with save_format=%r" % fmt)
        if self is not m:
            raise TypeError("another model is saved")
        dirs.append(str(path))
        if broken == 3:
            raise NativeError("saving fails")
        if c.thorough and c.coin(1):
            return REAL_SAVE(self, path, *a, **k)
        write_saved_model(str(path), 1)
    ctx = mock.patch.object(type(m), "dtype_policy", K.mixed_precision.Policy(c.pick(["mixed_float16", "mixed_bfloat16"])), create=True) if broken == 2 else mock.patch.object(K.Model, "_verif", 1, create=True)
    if broken == 2:
        bad = "mixed precision"
    with mock.patch.object(K.Model, "save", save), ctx:
        r, e, graph_mode = run(c, st, lambda: converter.convert_keras_model(arg, **o))
    if bad or graph_mode:
        c.label("refused")
        if e is None or isinstance(e, NativeError):
            c.fail("not refused although %s" % (bad or "graph mode"))
        if st.calls or dirs:
            c.fail("refused only after saving or converting")
        return
    d = want(o)
    if broken != 3:
        saved_call(c, st, o, 1, None, True)
        if st.calls[0][1][0] not in dirs:
            c.fail("%s is converted, the model was saved in %s" % (st.calls[0][1][0], dirs))
    for p in dirs:
        if os.path.exists(p):
            c.fail("the temporary folder %s is left behind" % p)
    first_ok = broken != 3 and not st.fail["saved"] and expected(c, st, o, True) is not None if quantized else broken != 3 and not st.fail["saved"]
    graph = [x for x in st.calls if x[0] == "graph"]
    if first_ok:
        c.label("saved model")
        if graph:
            c.fail("a second conversion after a successful one")
        finish(c, st, o, r, e, quantized, True)
        return
    c.label("graph")
    if key[0] != 1 and any(d is None for t in m.inputs for d in t.shape.as_list()[1:]):
        if e is None or graph or not isinstance(e, ValueError):
            c.fail("an unspecified dimension is accepted")
        c.label("unspecified dimension")
        return
    if len(graph) != 1:
        c.fail("%d graph conversions (%r)" % (len(graph), e))
    a = graph[0][1]
    if len(a) != 8:
        c.fail("%d arguments" % len(a))
    gd = tf.compat.v1.GraphDef.FromString(a[0])
    names_in, dtypes, shapes, names_out, quant, target, rng = a[1:]
    ph = {n.name: n for n in gd.node if n.op == "Placeholder"}
    kin = [tf.TensorSpec(t.shape, t.dtype) for t in (m.inputs if key[0] != 1 else [tf.zeros([1, 4])])]
    if key[0] == 1:
        kin = [tf.TensorSpec([None, 4], tf.float32)]
    if len(names_in) != len(kin) or len(dtypes) != len(kin) or len(shapes) != len(kin) or any(n not in ph for n in names_in):
        c.fail("inputs %r %r %r for %r" % (names_in, dtypes, shapes, kin))
    for n, dt, s, k in zip(names_in, dtypes, shapes, kin):
        e1 = k.shape.as_list()
        if e1 and e1[0] is None:
            e1[0] = 1
        if list(s) != e1:
            c.fail("shape %r of input %s instead of %r" % (s, n, e1))
        if dt != {"float32": "DT_FLOAT", "int32": "DT_INT32"}[k.dtype.name]:
            c.fail("type %s of input %s" % (dt, n))
    need = key[5] != 0 and key[0] == 0 or d["experimental_default_int8_range"] is not None
    if quant is not need:
        c.fail("should_quantize is %r" % (quant,))
    if target != d["target"] or rng != d["experimental_default_int8_range"]:
        c.fail("target %r, range %r" % (target, rng))
    # the graph computes the model
    if c.coin(40):
        xs = [np.random.default_rng(5 + i).integers(-3, 4, size=[v or 2 for v in s]).astype(k.dtype.as_numpy_dtype) for i, (s, k) in enumerate(zip(shapes, kin))]
        y = m(xs[0] if len(xs) == 1 else [tf.constant(x) for x in xs])
        ys = [t.numpy() for t in (y if isinstance(y, (list, tuple)) else [y])]
        with tf.Graph().as_default() as g:
            tf.import_graph_def(gd, name="")
            with tf.compat.v1.Session(graph=g) as s:
                zs = s.run([n if ":" in n else n + ":0" for n in names_out], {(n if ":" in n else n + ":0"): x for n, x in zip(names_in, xs)})
        # Keras orders the outputs of a traced model by their names
        close = lambda p, q: p.shape == q.shape and np.allclose(p, q, 1e-4, 1e-4)  # noqa: E731
        if len(zs) != len(ys) or not any(all(close(ys[i], z) for i, z in zip(perm, zs)) for perm in itertools.permutations(range(len(ys)))):
            c.fail("the graph computes something else: %r instead of %r (%r)" % (zs, ys, names_out))
        c.label("executed")
    finish(c, st, o, r, e, quantized, need)


@prop
def Y01(c):
    (Y01_keras if c.coin(60) else Y01_saved)(c)


if __name__ == "__main__":
    sys.exit(pypbt.main())
