"""Random TFLite flatbuffer models and their meaning as terms.

A model's value is symbolic: every operator is an uninterpreted function of its opcode,
options and operands, so that two models computing equal terms compute the same values
whatever the operators do."""
import os, sys

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
import numpy as np  # noqa: E402
import flatbuffers  # noqa: E402
from tensorflow.lite.python import schema_py_generated as S  # noqa: E402

from unittest import mock  # noqa: E402

sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = S
for n in ("larq_compute_engine.mlir._tf_tfl_flatbuffer", "larq_compute_engine.tflite.python.interpreter_wrapper_lite"):
    sys.modules.setdefault(n, mock.MagicMock())

F32, I32, U8, I64, BOOL, I16, I8 = 0, 2, 3, 4, 6, 7, 9
B = S.BuiltinOperator
BODY = ["ADD", "MUL", "CONV_2D", "CONCATENATION", "RESHAPE", "MAX_POOL_2D", "SPLIT", "LSTM"]
TYPE_NAMES = {F32: "f32", I32: "i32", I8: "i8", U8: "u8", I16: "i16", I64: "i64", BOOL: "i1"}


class Build:
    """Assembles one subgraph; tensors are objects until the end, then get shuffled indices."""

    def __init__(self, c, model, codes, name):
        self.c, self.m, self.codes, self.name = c, model, codes, name
        self.tensors, self.ops, self.n = [], [], 0

    def tensor(self, type_, kind="t", data=None, shape=None):
        c = self.c
        t = S.TensorT()
        self.n += 1
        t.name = ("%s/%s%d" % (self.name, kind, self.n)).encode()
        t.type = type_
        t.shape = shape if shape is not None else [c.range(1, 3) for _ in range(c.range(1, 4))]
        t.buffer = 0
        if data is not None:
            b = S.BufferT()
            b.data = np.frombuffer(data, dtype=np.uint8)
            self.m.buffers.append(b)
            t.buffer = len(self.m.buffers) - 1
        if c.coin(30):
            t.shapeSignature = [-1] + list(t.shape[1:])
        if type_ in (I8, U8, I16):
            q = S.QuantizationParametersT()
            q.scale = [0.125 * (1 + c.draw(8))]
            q.zeroPoint = [c.range(-8, 8)]
            t.quantization = q
        if c.coin(5):
            t.isVariable = True
        self.tensors.append(t)
        return t

    def op(self, code, ins, outs, options=None, intermediates=None, at=None):
        o = S.OperatorT()
        o.code, o.ins, o.outs, o.inter = code, ins, outs, intermediates
        if code[1]:
            o.customOptions = np.frombuffer(options or b"", dtype=np.uint8)
        elif options is not None:
            o.builtinOptionsType = S.BuiltinOptions.AddOptions
            o.builtinOptions = S.AddOptionsT()
            o.builtinOptions.fusedActivationFunction = options[0] % 3
        self.ops.insert(len(self.ops) if at is None else at, o)
        return o

    def finish(self, inputs, outputs):
        c = self.c
        order = self.tensors
        kind = c.weighted([3, 2, 2])
        if kind == 0:
            order = c.shuffle(self.tensors)
        elif kind == 1:  # as a converter numbers them: inputs, then in order
            order = [t for t in self.tensors if t in inputs] + [t for t in self.tensors if t not in inputs]
        elif kind == 2:  # inputs and outputs last
            order = [t for t in self.tensors if t not in inputs and t not in outputs] + [t for t in self.tensors if t in inputs or t in outputs]
        index = {id(t): i for i, t in enumerate(order)}
        ix = lambda l: np.array([-1 if t is None else index[id(t)] for t in l], dtype=np.int32)  # noqa: E731
        g = S.SubGraphT()
        g.tensors, g.operators, g.name = order, [], self.name.encode()
        g.inputs, g.outputs = ix(inputs), ix(outputs)
        # any order that respects the dependencies
        todo, made = list(self.ops), {id(t) for t in order} - {id(t) for o in self.ops for t in o.outs}
        while todo:
            ready = [o for o in todo if all(t is None or id(t) in made for t in o.ins)]
            o = ready[c.draw(min(len(ready), 3))]
            todo.remove(o)
            made |= {id(t) for t in o.outs}
            o.opcodeIndex = self.codes[o.code]
            o.inputs, o.outputs = ix(o.ins), ix(o.outs)
            if o.inter is not None:
                o.intermediates = ix(o.inter)
            g.operators.append(o)
        self.index = index
        return g


def opcodes(c, wanted):
    """-> (OperatorCodeT list, {(builtin, custom, version): index}) in random order."""
    keys = c.shuffle(wanted)
    out = []
    for b, cust, v in keys:
        k = S.OperatorCodeT()
        k.builtinCode, k.version, k.deprecatedBuiltinCode = b, v, min(b, 127)
        if cust:
            k.customCode = cust
        out.append(k)
    return out, {k: i for i, k in enumerate(keys)}


def pack(model):
    b = flatbuffers.Builder(1024)
    b.Finish(model.Pack(b), file_identifier=b"TFL3")
    return bytes(b.Output())


def unpack(data):
    if data[4:8] != b"TFL3":
        raise ValueError("no TFL3 identifier")
    return S.ModelT.InitFromObj(S.Model.GetRootAsModel(bytearray(data), 0))


def lst(x):
    return [] if x is None else [int(v) for v in x]


def raw(x):
    return b"" if x is None else bytes(bytearray(np.asarray(x, dtype=np.uint8)))


def struct_key(o):
    """A comparable value of an object-API struct."""
    if o is None or isinstance(o, (int, float, str, bytes, bool)):
        return o
    if isinstance(o, np.ndarray):
        return tuple(o.tolist())
    if isinstance(o, (list, tuple)):
        return tuple(struct_key(x) for x in o)
    if isinstance(o, np.generic):
        return o.item()
    return (type(o).__name__,) + tuple((k, struct_key(v)) for k, v in sorted(vars(o).items()))


def tensor_key(model, t):
    return (t.name, t.type, tuple(lst(t.shape)), tuple(lst(t.shapeSignature)), bool(t.isVariable), struct_key(t.quantization),
            raw(model.buffers[t.buffer].data) if 0 < t.buffer < len(model.buffers) else b"", t.buffer != 0)


def op_key(model, op):
    k = model.operatorCodes[op.opcodeIndex]
    return (k.builtinCode, k.customCode, k.version, op.builtinOptionsType, struct_key(op.builtinOptions), raw(op.customOptions),
            struct_key(op.mutatingVariableInputs))


class Invalid(Exception):
    pass


def validate(model):
    """Structural validity of every subgraph and signature."""
    for si, g in enumerate(model.subgraphs):
        n = len(g.tensors)
        made = {}
        for name, l, opt in [("input", lst(g.inputs), False), ("output", lst(g.outputs), False)]:
            for t in l:
                if not 0 <= t < n:
                    raise Invalid("subgraph %d: %s is tensor %d of %d" % (si, name, t, n))
        for t in g.tensors:
            if not 0 <= t.buffer < len(model.buffers):
                raise Invalid("buffer %d of %d" % (t.buffer, len(model.buffers)))
        produced = {t for o in g.operators for t in lst(o.outputs)}
        for i, o in enumerate(g.operators):
            if not 0 <= o.opcodeIndex < len(model.operatorCodes):
                raise Invalid("opcode index %d" % o.opcodeIndex)
            for t in lst(o.inputs):
                if not -1 <= t < n:
                    raise Invalid("operator %d reads tensor %d of %d" % (i, t, n))
                if t in produced and t not in made:
                    raise Invalid("operator %d reads tensor %d before it is computed" % (i, t))
            for t in lst(o.intermediates):
                if not 0 <= t < n:
                    raise Invalid("operator %d has intermediate tensor %d of %d" % (i, t, n))
            for t in lst(o.outputs):
                if not 0 <= t < n:
                    raise Invalid("operator %d writes tensor %d of %d" % (i, t, n))
                if t in made:
                    raise Invalid("tensor %d is written twice" % t)
                made[t] = i
    for sd in model.signatureDefs or []:
        if not 0 <= sd.subgraphIndex < len(model.subgraphs):
            raise Invalid("signature of subgraph %d" % sd.subgraphIndex)
        g = model.subgraphs[sd.subgraphIndex]
        for l, own, what in [(sd.inputs, g.inputs, "input"), (sd.outputs, g.outputs, "output")]:
            for tm in l or []:
                if tm.tensorIndex not in lst(own):
                    raise Invalid("signature %s: %s %s is tensor %d, which is no %s of the subgraph" % (sd.signatureKey, what, tm.name, tm.tensorIndex, what))


def terms(model, g, leaf):
    """{tensor index: term}. `leaf(i)` overrides the term of tensor i when it is not None."""
    intern = {}

    def mk(t):
        return intern.setdefault(t, t)
    val = {}

    def get(i):
        if i == -1:
            return ("none",)
        if i not in val:
            l = leaf(i)
            val[i] = mk(l if l is not None else ("tensor", tensor_key(model, g.tensors[i])))
        return val[i]
    ops = []
    for o in g.operators:
        ins = tuple(id_of(get(i)) for i in lst(o.inputs))
        inter = tuple(tensor_key(model, g.tensors[i]) for i in lst(o.intermediates))
        head = (op_key(model, o), ins, inter, tuple(tensor_key(model, g.tensors[i]) for i in lst(o.outputs)))
        ops.append(head)
        for k, i in enumerate(lst(o.outputs)):
            l = leaf(i)
            val[i] = mk(l if l is not None else ("op", id_of(head), k))
    return val, get, ops


_ids = {}


def id_of(t):
    """A number that stands for a term (equal terms, equal numbers)."""
    if len(_ids) > 500000:
        raise MemoryError("reset_ids() was not called")
    return _ids.setdefault(t, len(_ids))


def reset_ids():
    _ids.clear()
