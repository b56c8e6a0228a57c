"""Y02, Y03: rewriting the inputs and outputs of TFLite models."""
import os, sys, warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.filterwarnings("ignore")
import pypbt  # noqa: E402
from pypbt import prop  # noqa: E402
from flat import *  # noqa: E402,F403
import flat  # noqa: E402
import numpy as np  # noqa: E402
import tensorflow as tf  # noqa: E402
from larq_compute_engine.mlir.python import util  # noqa: E402

Q, D, LCE = (B.QUANTIZE, None, 1), (B.DEQUANTIZE, None, 1), (B.CUSTOM, b"LceDequantize", 1)
Q2, D2, LCE2 = (B.QUANTIZE, None, 2), (B.DEQUANTIZE, None, 2), (B.CUSTOM, b"LceDequantize", 2)


def subgraph(c, model, codes, body, name, strip):
    b = Build(c, model, codes, name)
    qs, ds, ls = [k for k in (Q, Q2) if k in codes], [k for k in (D, D2) if k in codes], [k for k in (LCE, LCE2) if k in codes]
    pool, inputs, text = [], [], []
    odd = c.coin(15)  # a model with something unusual
    for _ in range(c.range(1, 4)):
        kind = c.weighted([60, 15, 10, 15]) if qs else c.pick([1, 2, 3])
        if kind == 0:
            t = b.tensor(F32, "in")
            inputs.append(t)
            src = I8 if odd and c.coin(10) else F32
            t.type = src
            q = b.tensor(c.pick([U8, I16]) if odd and c.coin(10) else I8)
            b.op(c.pick(qs), [t], [q])
            pool.append(q)
            text.append("q")
            if odd and c.coin(25):
                q2 = b.tensor(I8)
                b.op(c.pick(qs), [t], [q2])
                pool.append(q2)
                text.append("+q")
            if odd and c.coin(25):
                pool.append(t)
                text.append("+")
        else:
            t = b.tensor([F32, I8, I32][kind - 1], "in")
            inputs.append(t)
            pool.append(t)
            text.append(TYPE_NAMES[t.type])
    text.append("|")
    for _ in range(c.range(0, 6)):
        k = c.weighted([8, 1, 1])
        if k == 1 and ds:
            src = [t for t in pool if t.type == I8]
            if src:
                o = b.tensor(F32)
                b.op(c.pick(ds), [c.pick(src)], [o])
                pool.append(o)
                text.append("d")
                continue
        if k == 2 and qs:
            src = [t for t in pool if t.type == F32 and t not in inputs]
            if src:
                o = b.tensor(I8)
                b.op(c.pick(qs), [c.pick(src)], [o])
                pool.append(o)
                text.append("q")
                continue
        ins = [c.pick(pool) for _ in range(c.range(1, 3))]
        if c.coin(25):
            ins.insert(c.draw(len(ins) + 1), None)
        if c.coin(40):
            ins.append(b.tensor(c.pick([I8, I32]), "const", bytes(c.draw(256) for _ in range(c.range(1, 5)))))
        outs = [b.tensor(c.pick([I8, I32, F32])) for _ in range(c.weighted([8, 2]) + 1)]
        inter = [b.tensor(I8, "inter") for _ in range(c.range(1, 3))] if c.coin(12) else None
        b.op(c.pick(body), ins, outs, bytes([c.draw(256), c.draw(3)]), inter)
        pool += outs
        text.append("o%d%s" % (len(outs), "i" if inter else ""))
    text.append("|")
    outputs = []
    for _ in range(c.range(1, 4)):
        kind = c.weighted([55, 15, 30] if not strip else [20, 30, 20, 50] if ls else [50, 25, 25])
        i8 = [t for t in pool if t.type == I8]
        if strip and kind in (1, 3) and ls:
            o = b.tensor(c.pick([F32, I8]) if not (odd and c.coin(10)) else I16)
            src = [t for t in pool if t.type == I32]
            if not src:
                src = [b.tensor(I32)]
                b.op(c.pick(body), [c.pick(pool)], src)
            b.op(c.pick(ls), [c.pick(src) if not (odd and c.coin(8)) else c.pick(pool)], [o])
            tag = "L" + TYPE_NAMES[o.type]
            if ds and (kind == 1 and o.type == I8 or odd and c.coin(20)):
                if c.coin(15):
                    outputs.append(o)
                o2 = b.tensor(F32)
                b.op(c.pick(ds), [o], [o2])
                o = o2
                tag += "D"
            text.append(tag)
        elif kind == 0 and ds and i8:
            o = b.tensor(F32 if not (odd and c.coin(8)) else I16, "out")
            b.op(c.pick(ds), [c.pick(i8) if not (odd and c.coin(8)) else c.pick(pool)], [o])
            text.append("D")
        else:
            o = c.pick(pool)
            text.append(TYPE_NAMES[o.type])
        outputs.append(o)
        if c.coin(8):
            outputs.append(o)
            text.append("x2")
        if c.coin(8):  # and used inside as well
            u = b.tensor(c.pick([I8, F32]))
            b.op(c.pick(body), [o], [u], bytes([c.draw(256)]))
            outputs.append(u)
            text.append("+use")
        elif c.coin(5):
            b.op(c.pick(body), [o], [b.tensor(I8)], bytes([c.draw(256)]))
            text.append("+dead")
    outputs = c.shuffle(outputs)
    return b.finish(inputs, outputs), " ".join(text)


def gen(c, strip):
    m = S.ModelT()
    m.version, m.description = 3, b"random"
    m.buffers = [S.BufferT()]
    body = [(getattr(B, n), None, 1) for n in [c.pick(BODY) for _ in range(c.range(1, 3))]] + [(B.CUSTOM, b"LceBconv2d", 1)]
    want = list(dict.fromkeys(body))
    want += [Q] * c.coin(93) + [D] * c.coin(93)
    if c.coin(12):
        want += [c.pick([Q2, D2])]
    if strip and c.coin(93) or c.coin(10):
        want += [LCE]
        if c.coin(8):
            want += [LCE2]
    m.operatorCodes, codes = opcodes(c, want)
    m.subgraphs, text = [], []
    for i in range(c.weighted([80, 15, 5]) + 1):
        g, t = subgraph(c, m, codes, body, "main" if i == 0 else "sub%d" % i, strip)
        m.subgraphs.append(g)
        text.append(t)
    m.signatureDefs = []
    for i in range(c.weighted([25, 60, 15])):
        sd = S.SignatureDefT()
        sd.signatureKey = b"sig%d" % i
        sd.subgraphIndex = 0 if c.coin(75) else c.draw(len(m.subgraphs))
        g = m.subgraphs[sd.subgraphIndex]

        def maps(idx, p):
            r = []
            for k, ti in enumerate(c.shuffle(sorted(set(lst(idx))))):
                if c.coin(92):
                    tm = S.TensorMapT()
                    tm.name, tm.tensorIndex = b"%s%d" % (p, k), ti
                    r.append(tm)
            return r
        sd.inputs, sd.outputs = maps(g.inputs, b"x"), maps(g.outputs, b"y")
        m.signatureDefs.append(sd)
    if not m.signatureDefs and c.coin():
        m.signatureDefs = None
    if c.coin(40):
        buf = S.BufferT()
        buf.data = np.frombuffer(b"meta" + bytes([c.draw(256)]), dtype=np.uint8)
        m.buffers.append(buf)
        md = S.MetadataT()
        md.name, md.buffer = b"info", len(m.buffers) - 1
        m.metadata = [md]
    return m, "; ".join(text) + " sigs=%s" % ([sd.subgraphIndex for sd in m.signatureDefs] if m.signatureDefs else "-")


class Refused(Exception):
    pass


class Plan:
    """What is to happen to one subgraph: removed operators, and what stands for each tensor at the border."""

    def __init__(self, m, g):
        self.m, self.g = m, g
        self.ops = list(g.operators)
        self.inputs, self.outputs = lst(g.inputs), lst(g.outputs)
        self.in_map, self.out_map, self.gone = {}, {}, set()

    def code(self, op):
        k = self.m.operatorCodes[op.opcodeIndex]
        return (k.builtinCode, k.customCode)

    def readers(self, t):
        return [o for o in self.ops if t in lst(o.inputs)]

    def kind(self, op):
        k = self.code(op)
        return "L" if k[1] == b"LceDequantize" else "Q" if k[0] == B.QUANTIZE else "D" if k[0] == B.DEQUANTIZE else None

    def types(self, op, flip=False):
        return self.g.tensors[lst(op.inputs)[0]].type, self.g.tensors[lst(op.outputs)[0]].type

    def drop_outputs(self, ops):
        for o in ops:
            src, dst = lst(o.inputs)[0], lst(o.outputs)[0]
            self.outputs = [src if x == dst else x for x in self.outputs]
            self.out_map = {k: (src if v == dst else v) for k, v in self.out_map.items()}
            self.out_map[dst] = src
            if [r for r in self.readers(dst) if r is not o]:
                continue
            self.ops.remove(o)
            self.gone.add(dst)

    def final(self, kind):
        return [o for o in self.ops if self.kind(o) == kind and lst(o.outputs)[0] in self.outputs]


def plan_io(m, want_in, want_out):
    p = Plan(m, m.subgraphs[0])
    kinds = {(B.QUANTIZE), (B.DEQUANTIZE)} & {k.builtinCode for k in m.operatorCodes}
    if not kinds:
        raise Refused("no quantize or dequantize operator")
    ins = [o for o in p.ops if p.kind(o) == "Q" and lst(o.inputs)[0] in p.inputs]
    outs = p.final("D")
    for o in ins:
        if p.types(o) != (F32, I8):
            raise Refused("input types")
    for o in outs:
        if p.types(o) != (I8, F32):
            raise Refused("output types")
    if want_in == "int8":
        for o in ins:
            t = lst(o.inputs)[0]
            if len(p.readers(t)) > 1 or t in p.outputs:
                raise Refused("an input is used by more than one Quantize")
        for o in ins:
            src, dst = lst(o.inputs)[0], lst(o.outputs)[0]
            p.inputs = [dst if x == src else x for x in p.inputs]
            p.in_map[src] = dst
            p.ops.remove(o)
            p.gone.add(src)
    if want_out == "int8":
        p.drop_outputs(outs)
    return p


def plan_strip(m):
    if not any(k.customCode == b"LceDequantize" or k.builtinCode == B.DEQUANTIZE for k in m.operatorCodes):
        raise Refused("nothing to strip")
    plans = []
    for g in m.subgraphs:
        p = Plan(m, g)
        f = p.final("D")
        if any(p.types(o) != (I8, F32) for o in f):
            raise Refused("dequantize types")
        p.drop_outputs(f)
        f = p.final("L")
        if any(p.types(o)[0] != I32 or p.types(o)[1] not in (F32, I8) for o in f):
            raise Refused("lcedequantize types")
        p.drop_outputs(f)
        plans.append(p)
    return plans


def names(m, g, l):
    return [tensor_key(m, g.tensors[i]) for i in l]


def compare(c, old, new, plans):
    """`new` has to be `old` changed as planned and in no other way."""
    if len(new.subgraphs) != len(old.subgraphs):
        c.fail("%d subgraphs instead of %d" % (len(new.subgraphs), len(old.subgraphs)))
    flat.reset_ids()
    for si, (g, h) in enumerate(zip(old.subgraphs, new.subgraphs)):
        p = plans.get(si) or Plan(old, g)
        where = "subgraph %d: " % si
        if h.name != g.name:
            c.fail(where + "renamed")
        for what, l, got in [("inputs", p.inputs, lst(h.inputs)), ("outputs", p.outputs, lst(h.outputs))]:
            a, b = names(old, g, l), names(new, h, got)
            if a != b:
                c.fail(where + "%s are %r instead of %r" % (what, [x[:3] for x in b], [x[:3] for x in a]))
        want = sorted(map(repr, names(old, g, [i for i in range(len(g.tensors)) if i not in p.gone])))
        have = sorted(map(repr, names(new, h, range(len(h.tensors)))))
        if want != have:
            c.fail(where + "tensors lost: %r, tensors added: %r" % ([x[:60] for x in want if x not in have], [x[:60] for x in have if x not in want]))
        oin = {t: ("in", i) for i, t in enumerate(p.inputs)}
        nin = {t: ("in", i) for i, t in enumerate(lst(h.inputs))}
        _, oget, _ = terms(old, g, lambda i: oin.get(i))
        saved = g.operators
        g.operators = p.ops
        _, _, oops = terms(old, g, lambda i: oin.get(i))
        g.operators = saved
        _, nget, nops = terms(new, h, lambda i: nin.get(i))
        if len(oops) != len(nops):
            c.fail(where + "%d operators instead of %d" % (len(nops), len(oops)))
        for i, (x, y) in enumerate(zip(oops, nops)):
            if x != y:
                which = ["operator or options", "operands", "intermediates", "results"][[u == v for u, v in zip(x, y)].index(False)]
                c.fail(where + "operator %d has other %s: %r instead of %r" % (i, which, y, x))
        for k, (i, j) in enumerate(zip(p.outputs, lst(h.outputs))):
            if oget(i) != nget(j):
                c.fail(where + "output %d computes something else" % k)
    a, b = old.signatureDefs or [], new.signatureDefs or []
    if [(s.signatureKey, s.subgraphIndex) for s in a] != [(s.signatureKey, s.subgraphIndex) for s in b]:
        c.fail("other signatures")
    for s, t in zip(a, b):
        g, h = old.subgraphs[s.subgraphIndex], new.subgraphs[t.subgraphIndex]
        p = plans.get(s.subgraphIndex)
        for what, x, y, mp in [("inputs", s.inputs, t.inputs, p.in_map if p else {}), ("outputs", s.outputs, t.outputs, p.out_map if p else {})]:
            e = [(k.name, tensor_key(old, g.tensors[mp.get(k.tensorIndex, k.tensorIndex)])) for k in x or []]
            f = [(k.name, tensor_key(new, h.tensors[k.tensorIndex])) for k in y or []]
            if e != f:
                c.fail("signature %r: %s are %r instead of %r" % (s.signatureKey, what, [(k, v[0]) for k, v in f], [(k, v[0]) for k, v in e]))
    md = lambda m: [(x.name, raw(m.buffers[x.buffer].data)) for x in m.metadata or []]  # noqa: E731
    if md(old) != md(new) or old.description != new.description or old.version != new.version:
        c.fail("metadata, description or version changed")


def apply(c, old, data, f, plan):
    keep = bytes(data)
    try:
        plans, refused = plan(), None
    except Refused as e:
        plans, refused = None, str(e)
    try:
        out = f(data)
    except ValueError as e:
        if refused is None:
            c.fail("refused: %s" % e)
        c.label("refused: " + refused)
        return None, None
    if refused is not None:
        c.fail("not refused although: " + refused)
    if bytes(data) != keep:
        c.fail("the caller's model was changed")
    if not isinstance(out, bytes):
        c.fail("returned a %s" % type(out).__name__)
    try:
        new = unpack(out)
        validate(new)
    except (Invalid, ValueError) as e:
        c.fail("the result is no valid model: %s" % e)
    compare(c, old, new, plans)
    return out, plans


@prop
def Y02(c):
    m, text = gen(c, False)
    want_in, want_out = c.pick(["int8", "float32"]), c.pick(["int8", "float32"])
    c.desc("in=%s out=%s %s" % (want_in, want_out, text))
    data = pack(m)
    old = unpack(data)
    validate(old)
    out, plans = apply(c, old, data, lambda d: util.modify_integer_quantized_model_io_type(
        d, inference_input_type=getattr(tf, want_in), inference_output_type=getattr(tf, want_out)), lambda: {0: plan_io(old, want_in, want_out)})
    if out is None:
        return
    c.nontrivial(bool(plans[0].in_map or plans[0].out_map))
    c.label("inputs changed %d" % len(plans[0].in_map))
    c.label("outputs changed %d" % len(plans[0].out_map))
    if c.coin(25):  # a second run finds nothing more to change
        again = util.modify_integer_quantized_model_io_type(out, inference_input_type=getattr(tf, want_in), inference_output_type=getattr(tf, want_out)) \
            if any(k.builtinCode in (B.QUANTIZE, B.DEQUANTIZE) for k in unpack(out).operatorCodes) else out
        o2 = unpack(out)
        try:
            p2 = plan_io(o2, want_in, want_out)
        except Refused:
            return
        compare(c, o2, unpack(again), {0: p2})


@prop
def Y03(c):
    m, text = gen(c, True)
    c.desc(text)
    data = pack(m)
    old = unpack(data)
    validate(old)
    out, plans = apply(c, old, data, util.strip_lcedequantize_ops, lambda: dict(enumerate(plan_strip(old))))
    if out is None:
        return
    c.nontrivial(any(p.out_map for p in plans.values()))
    c.label("outputs stripped %d" % sum(len(p.out_map) for p in plans.values()))


if __name__ == "__main__":
    sys.exit(pypbt.main())
