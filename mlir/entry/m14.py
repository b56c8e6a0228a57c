"""M14: the native entry points of the converter, compiled with the pass pipeline they build
against recording stand-ins for TensorFlow's importers, passes and exporter (stub.cc)."""
import importlib.machinery, importlib.util, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "common"))
import pypbt  # noqa: E402
from pypbt import prop  # noqa: E402

SO = os.environ["VERIF_NATIVE"]


def load(name):
    loader = importlib.machinery.ExtensionFileLoader(name, SO)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, loader))
    loader.exec_module(m)
    return m


native, stub = load("_tf_tfl_flatbuffer"), load("_verif_entry")
PASSES = ["SetBatchSize", "OpRemoval", "PrepareLCE", "OptimizeLCE", "BitpackWeights", "LCEQuantize", "LegalizeLCE", "DetectionPostProcess", "FusePadding", "PrepareQuantize",
          "DefaultQuantParams", "Quantize", "PostQuantize", "PostQuantizeRemoveQDQ", "OptimizeOpOrder", "Optimize", "RaiseCustomOps", "PrepareCompositeFunctions",
          "LowerStaticTensorList", "LegalizeTFWhile", "ReduceWhileOperands", "PrepareTF", "LegalizeTF", "AnalyzeVariables", "LegalizeVariables", "LegalizeHashTables",
          "OptimizeFunctionalOps", "SplitMergedOperands", "InsertCallOnce", "UnfoldLargeSplatConstant", "WhileOutline", "RuntimeVerify", "TFStandardPipeline",
          "DeviceIndexSelector", "TFShapeInference", "ControlFlowToRegions", "RegionControlFlowToFunctional", "LayoutOptimization", "InitTextFileToImport", "DecomposeResourceOps",
          "OptimizeGlobalTensors", "FreezeGlobalTensors", "FreezeAssets"]
V1 = ["Switch", "Merge", "Enter", "Exit", "NextIteration.Sink", "NextIteration.Source"]
HARMLESS = ["graph", "island", "LoopCond", "ControlTrigger"]
LETTERS = "abcxyz/_:;.0189-"


def word(c, most):
    n = c.range(0, most)
    return "".join(LETTERS[c.draw(len(LETTERS))] for _ in range(n))


class Module:
    """The text of what the importer returns, and what there is to know about it."""

    def __init__(self, c, entries):
        self.v1, self.names, self.entry, self.inputs = False, [], [], None
        n = max(1, entries) + (c.range(0, 2) if c.coin(40) else 0)
        which = c.shuffle(range(n))[:entries]
        text = []
        for i in range(n):
            attrs = ""
            if i in which:
                self.entry.append("f%d" % i)
                names = ["in%d_%s" % (k, word(c, 6).replace(";", "")) for k in range(c.range(1, 5))]
                d = ['outputs = "out"']
                if c.coin(92):
                    d.append('inputs = "%s"' % ",".join(names))
                    self.inputs = len(names)
                attrs = " attributes {tf.entry_function = {%s}}" % ", ".join(c.shuffle(d))
            text.append("func.func @f%d()%s {\n%s  return\n}\n" % (i, attrs, self.body(c, 2)))
        self.text = "".join(text)

    def op(self, c, name, body=""):
        if c.coin(20):
            loc = ' loc("file.py":%d:1)' % c.range(1, 99)
            self.names.append("")
        else:
            m = word(c, 12) + "n" * (c.range(35, 60) if c.coin(50) else c.range(0, 10)) + word(c, 20)
            m = m or "n"
            self.names.append(m)
            loc = ' loc("%s")' % m
        return '  %%%d = "%s"() %s: () -> i32%s\n' % (len(self.names) - 1, name, "({\n%s}) " % body if body else "", loc)

    def body(self, c, depth):
        s = ""
        for _ in range(c.weighted([3, 4, 3, 2])):
            k = c.weighted([50, 25, 15 if depth else 0, 2])
            # Operations are numbered in the order of the names, that of the text after its nested ones.
            if k == 0:
                s += self.op(c, "tf.Op%d" % c.draw(5))
            elif k == 1:
                s += self.op(c, "tf_executor." + c.pick(HARMLESS))
            elif k == 2:
                inner = self.body(c, depth - 1) or self.op(c, "tf.Inner")
                s += self.op(c, c.pick(["tf_executor.graph", "tf_executor.island"]), inner + '  "tf.yield"() : () -> ()\n')
            else:
                self.v1 = True
                s += self.op(c, "tf_executor." + c.pick(V1))
        return s


def same_names(c, expected, got):
    if len(expected) != len(got):
        return False
    want = sorted(n[:50] for n in expected)
    for n in sorted(got, key=len):
        # unique names get a number at the end
        k = [w for w in want if n == w or (n.startswith(w) and n[len(w):].isdigit())]
        if not k:
            return False
        want.remove(max(k, key=len))
    return True


@prop
def M14(c):
    saved = c.coin(50)
    target = c.pick(["arm", "xcore"]) if c.coin(94) else c.pick(["ARM", "", "xcore ", "armv7", "x86", "arm\0"])
    entries = c.pick([1]) if c.coin(90) else c.pick([0, 2])
    m = Module(c, entries)
    ranges = None if c.coin(50) else (c.range(-40, 0) / 8, c.range(0, 40) / 8)
    bad_ranges = False
    if ranges is not None and c.coin(6):
        ranges, bad_ranges = c.pick([(1.0,), (1.0, 2.0, 3.0), "ab", ("a", "b"), 3.0, (None, 1.0)]), True
    quantize = True if saved else c.coin(50)
    fail, silent = "", False
    if c.coin(45):
        fail = c.pick(["load", "parse inputs", "parse outputs", "import", "register", "freeze", "export"]) if c.coin(30) else "pass " + c.pick(PASSES)
        silent = c.coin(30)
    broken = c.coin(4)
    bundle = "dropped" if c.coin(20) else "kept"
    rng = pypbt.Rng(c.draw(1 << 20))
    result = bytes(rng.below(256) for _ in range(c.range(0, 60)))
    stub.reset({"module": m.text.encode(), "fail": fail.encode(), "silent": b"1" if silent else b"", "broken": b"1" if broken else b"0", "bundle": bundle.encode(), "result": result})
    c.desc("%s target %r entries %d ranges %r quantize %d fail %r%s%s v1 %d" % ("saved model" if saved else "graph", target, entries, ranges, quantize, fail, " silently" if silent else "",
                                                                             " broken" if broken else "", m.v1))
    must_raise = []
    if target not in ("arm", "xcore"):
        must_raise.append("the target is unknown")
    if m.v1:
        must_raise.append("the graph has V1 control flow")
    if broken:
        must_raise.append("the module is invalid at the end")
    if quantize and bad_ranges:
        must_raise.append("the ranges are no pair of numbers")
    answer = error = None
    if saved:
        tags = [word(c, 5) for _ in range(c.range(0, 3))]
        names = [] if c.coin(5) else ["serving_default"] if c.coin(50) else [word(c, 8) for _ in range(c.range(1, 3))]
        folder, version = "/model/" + word(c, 8), c.range(1, 2)
        if not names:
            must_raise.append("no name is exported")
        if entries != 1:
            must_raise.append("there are %d entry functions" % entries)
        elif m.inputs is None:
            must_raise.append("the entry function names no inputs")
        c.desc(" dir %r tags %r names %r version %d bundle %s" % (folder, tags, names, version, bundle))
        call = lambda: native.convert_saved_model_to_tflite_flatbuffer(folder, tags, names, version, target, ranges)  # noqa: E731
    else:
        n = c.range(0, 3)
        ins = ["in%d%s" % (i, word(c, 4)) for i in range(n)]
        dts = [c.pick(["DT_FLOAT", "DT_INT8", "", "DT_INT32"]) for _ in range(n)]
        shapes = [[c.range(0, 9) if c.coin(80) else -1 for _ in range(c.range(0, 4))] for _ in range(n)]
        outs = ["out%d%s" % (i, word(c, 4)) for i in range(c.range(0, 3))]
        graph = bytes(rng.below(256) for _ in range(c.range(0, 30)))
        if n and c.coin(4):
            dts.pop()
            must_raise.append("the lists of inputs differ in length")
        c.desc(" in %r %r %r out %r" % (ins, dts, shapes, outs))
        call = lambda: native.convert_graphdef_to_tflite_flatbuffer(graph, ins, dts, shapes, outs, quantize, target, ranges)  # noqa: E731
    try:
        answer = call()
    except Exception as e:  # noqa: B902
        error = e
    ev = [[s.decode("latin-1") for s in e] for e in stub.events()]
    passes = [e[1:] for e in ev if e[0] == "pass"]
    ran = {p[0] for p in passes}
    happened = (fail.startswith("pass ") and fail[5:] in ran) or (fail == "freeze" and any(e[0] == "freeze" for e in ev)) or \
        (fail == "export" and any(e[0] == "export" for e in ev)) or (fail == "register" and saved) or (fail == "import") or (fail in ("load", "parse inputs", "parse outputs") and not saved)
    if happened:
        must_raise.append("a step failed: %s%s" % (fail, " (without a message)" if silent else ""))
    c.nontrivial(not must_raise or happened)
    if must_raise:
        c.label("refused")
        if error is None:
            c.fail("%s, yet %d bytes are returned" % ("; ".join(must_raise), len(answer)))
        return
    c.label("saved model" if saved else "graph")
    c.label("quantised" if quantize else "float")
    if error is not None:
        c.fail("a conversion without a fault raises %s: %s" % (type(error).__name__, error))
    if answer != result:
        c.fail("the bytes returned are not those exported: %r instead of %r" % (answer[:20], result[:20]))
    # What was imported.
    imports = [i for i, e in enumerate(ev) if e[0].startswith("import")]
    exports = [i for i, e in enumerate(ev) if e[0] == "export"]
    freezes = [i for i, e in enumerate(ev) if e[0] == "freeze"]
    if len(imports) != 1 or len(exports) != 1:
        c.fail("%d imports and %d exports" % (len(imports), len(exports)))
    got = ev[imports[0]]
    if saved:
        want = ["import saved model", folder, str(version), got[3], "1", "0"]
        for t in sorted(set(tags)):
            want += ["tag", t]
        for x in names:
            want += ["name", x]
        if not got[3].endswith("upgrade1"):
            c.fail("the model is imported with %s" % got[3])
    else:
        want = ["import graphdef", graph.decode("latin-1"), "prune1 fed1 function0 upgrade1"]
        for a, b, s in zip(ins, dts, shapes):
            want += ["in", a, b, "".join("%d," % x for x in s) if s else "none"]
        for o in outs:
            want += ["out", o]
    if got != want:
        c.fail("imported %r instead of %r" % (got, want))
    # What was done to it.
    order = {}
    for i, e in enumerate(ev):
        if e[0] == "pass" and (e[-1] == "module" or entries != 1 or e[-1] == m.entry[0]):
            order.setdefault(e[1], []).append(i)
    if any(i > exports[0] or i < imports[0] for v in order.values() for i in v):
        c.fail("a pass runs after the export")
    for p in ["SetBatchSize", "OpRemoval", "PrepareLCE", "OptimizeLCE", "BitpackWeights", "FusePadding", "LegalizeLCE"]:
        if p not in order:
            c.fail("%s does not run" % p)
    for p in ("PrepareLCE", "OptimizeLCE"):
        for q in passes:
            if q[0] == p and q[1] != target:
                c.fail("%s runs for the target %s" % (p, q[1]))
    for a, b in [("SetBatchSize", "PrepareLCE"), ("OpRemoval", "PrepareLCE"), ("PrepareLCE", "LegalizeTF"), ("LegalizeTF", "OptimizeLCE"), ("PrepareLCE", "BitpackWeights"), ("OptimizeLCE", "LegalizeLCE"),
                 ("BitpackWeights", "LegalizeLCE"), ("FusePadding", "LegalizeLCE"), ("LCEQuantize", "LegalizeLCE"), ("PrepareQuantize", "LCEQuantize")]:
        if a in order and b in order and order[a][0] > order[b][0 if a != "LCEQuantize" else -1]:
            c.fail("%s runs after %s" % (a, b))
    if ("LCEQuantize" in order or "PrepareQuantize" in order or "DefaultQuantParams" in order or "Quantize" in order) and not quantize:
        c.fail("a float conversion quantises")
    if quantize:
        n = m.inputs if saved else len(ins)
        r = ["%.17g" % x for x in ranges] if ranges is not None else ["none", "none"]
        want = ["PrepareQuantize", "qint8", "float", "none:none " * n] + r + ["1" if saved and ranges is not None else "0"]
        for p in passes:
            if p[0] == "PrepareQuantize" and p[:-1] != want:
                c.fail("quantised with %r instead of %r" % (p[:-1], want))
            if p[0] == "DefaultQuantParams" and p[1:-1] != r + ["1"]:
                c.fail("default ranges %r instead of %r" % (p[1:-1], r))
        for p in ("PrepareQuantize", "LCEQuantize", "DetectionPostProcess", "Quantize", "PostQuantize"):
            if p not in order:
                c.fail("%s does not run" % p)
        if ("DefaultQuantParams" in order) != (ranges is not None):
            c.fail("default ranges are %s although %s given" % ("used", "none are") if ranges is None else ("not used", "they are"))
    if saved:
        if len(freezes) != 1 or ev[freezes[0]][1] != ("0" if bundle == "dropped" else "1"):
            c.fail("variables are frozen %d times: %r" % (len(freezes), [ev[i] for i in freezes]))
        if freezes[0] > order["PrepareLCE"][0] or freezes[0] > order["FreezeGlobalTensors"][0] or freezes[0] < order["TFStandardPipeline"][0]:
            c.fail("variables are frozen at the wrong time")
    elif freezes:
        c.fail("variables of a graph without a session are frozen")
    for p in passes:
        if p[0] in ("FreezeAssets", "InitTextFileToImport") and p[1] != (folder if saved else ""):
            c.fail("%s looks in %r" % (p[0], p[1]))
        if p[0] == "LayoutOptimization" and p[1] != "NHWC":
            c.fail("the layout becomes %r" % p[1])
    if ("FreezeAssets" in order) != saved:
        c.fail("assets are frozen" if not saved else "assets are not frozen")
    # What was exported.
    e = ev[exports[0]]
    if e[1:3] != ["1", "0"] or e[4] != "0":
        c.fail("exported with custom operators %s, TensorFlow operators %s, StableHLO %s" % (e[1], e[2], e[4]))
    t = sorted(e[i + 1] for i in range(6, len(e), 2) if e[i] == "tag")
    if t != (sorted(set(tags)) if saved else []):
        c.fail("exported with the tags %r" % t)
    got = [e[i + 1] for i in range(6, len(e), 2) if e[i] == "name"]
    if not same_names(c, m.names, got):
        c.fail("names %r for %r" % (got, m.names))
    if any(len(x) > 50 for x in m.names):
        c.label("long names")


if __name__ == "__main__":
    sys.exit(pypbt.main())
