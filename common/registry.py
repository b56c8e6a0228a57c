"""The checks: how each is built, how many cases it runs, what counts as non-trivial."""
import os, sys
from . import build as b

K = os.path.join(b.HERE, "kernels")
LCE = os.path.join(b.REPO, "larq_compute_engine")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
KFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-DTFLITE_WITH_RUY", "-I", os.path.join(K, "shim"), "-I", b.REPO] + SAN
CHECKS = {}


class Check:
    workers = 8
    case_limit = 60
    technique = "property-based testing"
    note = ""

    def __init__(self, id, quick, thorough, rule, assumptions, prop=None):
        self.id, self.quick, self.thorough, self.rule, self.assumptions = id, quick, thorough, rule, assumptions
        self.prop = prop or id
        CHECKS[id] = self


def cc(*dirs, known=()):
    """The sources of these folders of larq_compute_engine: those known and any that were added."""
    out = set(known)
    for d in dirs:
        for root, subdirs, files in os.walk(os.path.join(LCE, d)):
            subdirs[:] = [x for x in subdirs if x not in ("tests", "python")]
            out.update(os.path.relpath(os.path.join(root, f), LCE) for f in files if f.endswith(".cc") and not f.endswith(("_test.cc", "_tests.cc", "_benchmark.cc")))
    return [os.path.join(LCE, f) for f in sorted(out)]


def kernel_sources():
    return cc("tflite/kernels", "core")


KNOWN_PASSES = {"mlir/transforms/%s.cc" % f for f in (
    "bitpack", "bitpack_weights", "detection_postprocess", "fuse_padding", "legalize_tflite", "op_removal", "optimize", "prepare_tf", "quantize", "set_batch_size", "translate_tflite")} | {"mlir/ir/lce_ops.cc"}


def added_passes():
    return [f for f in cc("mlir/transforms", "mlir/ir") if os.path.relpath(f, LCE) not in KNOWN_PASSES]


class KernelCheck(Check):
    source = None
    levels = 1

    def build(self):
        key = b.tree_hash([os.path.join(LCE, "core"), os.path.join(LCE, "tflite", "kernels"), os.path.join(K, "shim"), os.path.join(b.HERE, "common"),
                           K], (".h", ".hpp"))
        kern = kernel_sources()
        objs = b.objects(kern, KFLAGS, key)
        for level in range(self.levels):  # less of what is internal to the library, where that no longer compiles
            try:
                objs = b.objects([os.path.join(K, self.source)], KFLAGS + ["-DVERIF_LEVEL=%d" % level], key) + objs
                break
            except b.BuildError as e:
                if level + 1 == self.levels:
                    raise
                print("note: %s does not compile at level %d, trying level %d\n%s" % (self.source, level, level + 1, str(e)[-600:]), file=sys.stderr)
        return [b.link(objs, SAN + ["-lpthread"], self.id)]


KASSUME = [
    "the operators are compiled for x86-64 with ASan and UBSan against stand-ins for the TFLite C API, ruy and flexbuffers (kernels/shim); the AArch64 assembly is not run here",
    "the reference model (kernels/model.h) states TensorFlow's padding and output-size rules and +/-1 arithmetic correctly",
]


def kernel(id, source, quick, thorough, rule):
    c = KernelCheck(id, quick, thorough, rule, KASSUME)
    c.source = source
    c.technique = "property-based testing against a reference model, in-process shrinking, ASan/UBSan"
    c.note = "Generated cases only, no absence proof. " + " ".join(x[0].upper() + x[1:] + "." for x in KASSUME)


GEN = "random convolution geometry (batch, image 1..12, filter 1..5, stride 1..4, dilation 1..3, groups 1..4, channels around word boundaries, SAME/VALID, pad value, activation), random weights and inputs; "
kernel("K01", "k01.cc", (2000000, 40), (30000000, 600), "a random matrix of a random element type, zero point inside, at and outside the type's range, special values (NaN, -0, denormals, infinities, zero point +-1); non-trivial: more than one element")
kernel("K02", "k02.cc", (700000, 40), (20000000, 600), "a random tensor of rank 1..5 through LceQuantize, LceDequantize and LceQuantize again; non-trivial: more than one element (refused types are counted, not non-trivial)")
kernel("K03", "k03.cc", (40000, 45), (1500000, 700), GEN + "every implementation that supports it, every output element compared; non-trivial: more than one product and more than one output element")
kernel("K04", "k03.cc", (40000, 45), (1500000, 700), GEN + "random scale and zero point; non-trivial: more than one product and more than one output element")
kernel("K05", "k03.cc", (40000, 45), (1500000, 700), GEN + "random thresholds including extreme ones; non-trivial: more than one product and more than one output element")
kernel("K06", "k06.cc", (40000, 45), (1500000, 700), GEN + "2 or 3 runs per implementation under different schedules and junk memory, two invocations each; non-trivial: more than two runs and more than one output element")
kernel("K07", "k07.cc", (600000, 40), (20000000, 600), "a valid convolution node with one property broken (or none); non-trivial: something is broken")
kernel("K08", "k08.cc", (40000, 45), (1500000, 700), "a history of 2..8 resize / re-allocate / thread-count / invoke steps on a chain of LCE operators, all intermediate tensors compared after each invocation; non-trivial: two invocations with a resize or re-allocation in the history")
kernel("K09", "k09.cc", (600000, 40), (20000000, 600), "random pooling geometry and bits, every output word compared; non-trivial: a window of several pixels and several outputs")
kernel("K10", "k10.cc", (400000, 40), (15000000, 700), "a random operator over awkward sizes in guarded buffers; non-trivial: more than one output element")
kernel("K11", "k11.cc", (150000, 40), (6000000, 700), "random matrices and storage orders through BGemm in random blocks, threads and accumulator types, the 4x4 packing routine, and the parameters given to assembly kernels; non-trivial: more than one output element")
kernel("K12", "k12.cc", (200000, 40), (8000000, 500), "a resolver filled by RegisterLCECustomOps with random arguments, its operators run on a random graph; every case is non-trivial")
kernel("K17", "k17.cc", (100000, 40), (5000000, 600), "a network of up to three operators taken through the same resizes (refused ones too) and invocations five times, or a case of K02..K09 (supported or refused), with every allocation made inside an operator's functions tracked until it is released; non-trivial: as in those checks, and for the cycles more than one shape")


for _id in ("K01", "K11"):
    CHECKS[_id].levels = 3


class BenchCheck(KernelCheck):
    """The benchmark program and the Java binding with the kernels they register."""

    def build(self):
        bench = os.path.join(K, "bench")
        key = b.tree_hash([os.path.join(LCE, "core"), os.path.join(LCE, "tflite"), os.path.join(K, "shim"), bench, os.path.join(b.HERE, "common")], (".h",))
        flags = ["-I", bench, "-I", b.HERE] + KFLAGS
        t = os.path.join(LCE, "tflite")
        objs = b.objects([os.path.join(K, self.source), os.path.join(t, "benchmark", "lce_benchmark_tflite_model.cc"), os.path.join(t, "java", "lce_ops_jni.cc")] +
                         kernel_sources(), flags, key)
        objs += b.objects([os.path.join(t, "benchmark", "lce_benchmark_main.cc")], flags + ["-Dmain=verif_main"], key)
        return [b.link(objs, SAN + ["-lpthread"], self.id)]



class ThreadCheck(KernelCheck):
    """The kernels and the harness built with ThreadSanitizer."""

    def build(self):
        key = b.tree_hash([os.path.join(LCE, "core"), os.path.join(LCE, "tflite", "kernels"), os.path.join(K, "shim"), os.path.join(b.HERE, "common"), K], (".h", ".hpp"))
        flags = [f for f in KFLAGS if f not in SAN] + ["-fsanitize=thread", "-fno-omit-frame-pointer", "-DVERIF_STRETCH=4"]
        objs = b.objects([os.path.join(K, self.source)] + kernel_sources(), flags, key)
        return ["/usr/bin/env", "TSAN_OPTIONS=halt_on_error=1:exitcode=66:report_atomic_races=1:history_size=4", b.link(objs, ["-fsanitize=thread", "-lpthread"], self.id)]


class A64Check(KernelCheck):
    """The kernels built for AArch64, run by the interpreter in aarch64/."""

    def build(self):
        from aarch64.image import image
        shim, a64 = os.path.join(K, "shim"), os.path.join(b.HERE, "aarch64")
        key = b.tree_hash([os.path.join(LCE, "core"), os.path.join(LCE, "tflite", "kernels"), shim, a64, os.path.join(b.HERE, "common"),
                           K], (".h", ".hpp"))
        kern = kernel_sources()
        img = image(kern, [shim, b.REPO], key, self.id)
        flags = ["-std=c++17", "-O2", "-g1", "-w", "-ffp-contract=off", "-DVERIF_SLACK=32", "-DVERIF_STRETCH=4", "-I", b.HERE, "-I", K, "-I", shim, "-I", b.REPO, "-fsanitize=address", "-fno-omit-frame-pointer"]
        exe = b.link(b.objects([os.path.join(a64, self.source)] + kern, flags + ["-DTFLITE_WITH_RUY"], key), ["-fsanitize=address", "-rdynamic", "-ldl", "-lpthread"], self.id)
        return ["/usr/bin/env", "VERIF_A64=" + img, exe]


class A32Check(KernelCheck):
    """The kernels built for Armv7 (Arm and Thumb), run by the interpreter in armv7/."""

    def build(self):
        from armv7.image import image
        shim, a64, a32 = os.path.join(K, "shim"), os.path.join(b.HERE, "aarch64"), os.path.join(b.HERE, "armv7")
        key = b.tree_hash([os.path.join(LCE, "core"), os.path.join(LCE, "tflite", "kernels"), shim, a64, a32, os.path.join(b.HERE, "common"), K], (".h", ".hpp"))
        kern = kernel_sources()
        arm, thumb = (image(kern, [shim, b.REPO], key, self.id, t) for t in (False, True))
        flags = ["-std=c++17", "-O2", "-g1", "-w", "-ffp-contract=off", "-DVERIF_ARMV7", "-DVERIF_STRETCH=4", "-I", b.HERE, "-I", K, "-I", shim, "-I", b.REPO, "-fsanitize=address", "-fno-omit-frame-pointer"]
        exe = b.link(b.objects([os.path.join(a64, "k13.cc")] + kern, flags + ["-DTFLITE_WITH_RUY"], key), ["-fsanitize=address", "-lpthread"], self.id)
        return ["/usr/bin/env", "VERIF_A32=" + arm, "VERIF_T32=" + thumb, exe]


c = ThreadCheck("K16", (200000, 40), (8000000, 600), "2..4 threads, each with interpreters of its own (some of one model, sharing its constants), made, allocated and invoked in phases between which interpreters move to other threads, in a process of its own; "
                "ThreadSanitizer reports nothing and every output equals the model; every case is non-trivial",
                ["the operators are compiled for x86-64 with ThreadSanitizer against stand-ins for the TFLite C API, ruy and flexbuffers (kernels/shim)", KASSUME[1],
                 "ThreadSanitizer finds a race in a run where both accesses happen unordered, whatever their timing"])
c.source = "k16.cc"
c.technique = "property-based testing of generated schedules against a reference model, one process per case, ThreadSanitizer, in-process shrinking"
c.note = "Generated schedules only, no absence proof. The interpreter around the operators is a stand-in."


PY = "/opt/lce/venv/bin/python"
P = os.path.join(b.HERE, "python")


class PyCheck(Check):
    technique = "property-based testing against a reference model of the rewriting, in-process shrinking"

    def build(self):
        return [PY, os.path.join(P, self.source)]


PASSUME = ["TensorFlow's own flatbuffer schema classes stand for larq_compute_engine.mlir.python.tflite_schema, which the build generates",
           "the native converter and interpreter are stand-ins"]


def python(id, source, quick, thorough, rule, assume):
    c = PyCheck(id, quick, thorough, rule, assume)
    c.source = source
    c.note = "Generated cases only, no absence proof. " + " ".join(x[0].upper() + x[1:] + "." for x in assume)
    return c


python("Y01", "y01.py", (4000, 40), (200000, 700), "random Keras models and saved models (valid and refusable ones), random options, a native converter that answers with a random model or fails; non-trivial: the native converter answered with a quantised model", PASSUME)
python("Y02", "y02.py", (10000, 40), (600000, 600), "random quantised flatbuffer models (1..4 inputs, 1..8 outputs, shared tensors, several subgraphs, signatures and operator versions, random tensor numbering) and requested types, compared as terms over uninterpreted operators; non-trivial: an input or output was rewritten", PASSUME[:1])
python("Y03", "y02.py", (10000, 40), (600000, 600), "as Y02, with LceDequantize and Dequantize operators at the outputs; non-trivial: an output was stripped", PASSUME[:1])
python("Y04", "y04.py", (40000, 40), (2000000, 500), "random inputs and outputs, 1..400 samples as array, list, iterator, generator or zip, a native interpreter whose outputs depend on every byte of every input; non-trivial: more than one sample", PASSUME[1:])


class BindingCheck(PyCheck):
    """The native binding, compiled with the kernels it registers against a stand-in for the interpreter."""

    def build(self):
        native = os.path.join(P, "native")
        key = b.tree_hash([os.path.join(LCE, "core"), os.path.join(LCE, "tflite"), os.path.join(K, "shim"), native], (".h",))
        flags = ["-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-DTFLITE_WITH_RUY", "-I", native, "-I", os.path.join(K, "shim"), "-I", b.REPO,
                 "-I", "/opt/lce/venv/lib/python3.12/site-packages/pybind11/include", "-I", "/usr/include/python3.12"]
        srcs = [os.path.join(LCE, "tflite", "python", "interpreter_wrapper_lite.cc"), os.path.join(native, "stub.cc")]
        srcs += kernel_sources()
        so = b.link(b.objects(srcs, flags, key), ["-shared", "-lpthread"], self.id)
        return ["/usr/bin/env", "VERIF_NATIVE=" + so, PY, os.path.join(P, self.source)]


c = BindingCheck("Y05", (200000, 40), (3000000, 600), "a random model (1..6 tensors of any type, shape and quantisation, possibly shared as inputs and outputs), options, and 0..4 predictions with fitting (in any memory layout) or unfitting inputs, "
                 "against a recording interpreter with guarded tensors; non-trivial: a prediction succeeded",
                 ["TensorFlow Lite's interpreter, model and resolver are stand-ins (python/native); the binding itself is compiled from /repo with the installed pybind11"])
c.source = "y05.py"
c.technique = "stateful property-based testing against a recording stand-in, shrinking"
c.note = "Generated cases only, no absence proof. The interpreter behind the binding is a stand-in."


c = python("C01", "c01.py", (4000, 40), (150000, 600), "a random environment, answers given as the questions come (none after a random number), platform, NDK and SDK trees and interpreters below a scratch directory, a file of an earlier run; non-trivial: something was answered or set",
           ["the machine's own interpreters stand for any interpreter; Windows is not simulated"])
c.technique = "property-based testing against a reference model, in-process shrinking"


M = os.path.join(b.HERE, "mlir")
LLVM = "/usr/lib/llvm-18"
MSAN = ["-fsanitize=undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"]
MASSUME = ["MLIR 18.1.3 as installed here stands for the MLIR commit TensorFlow pins; the official build compiles set_batch_size.cc against the same one"]


class MlirCheck(Check):
    """The passes against the installed MLIR; the TensorFlow dialects are stand-ins generated from mlir/shim."""
    source, repo_files, dialects, runtime, extra = None, (), True, False, ()

    def build(self):
        shim = os.path.join(M, "shim")
        key = b.tree_hash([os.path.join(LCE, "mlir"), os.path.join(LCE, "core"), shim, os.path.join(M, "gen"), os.path.join(M, "src"), os.path.join(K, "shim"),
                           os.path.join(K, "lite.h"), os.path.join(b.HERE, "common")], (".h", ".td", ".py"))
        flags = ["-std=c++17", "-O1", "-g1", "-w", "-I", b.REPO, "-I", b.HERE, "-I", shim, "-I", os.path.join(K, "shim"), "-isystem", LLVM + "/include"] + MSAN
        srcs = [os.path.join(M, "src", self.source)] + [os.path.join(LCE, "mlir", f) for f in self.repo_files]
        if self.dialects:
            flags += ["-I", self.generate(shim)]
            srcs += [os.path.join(M, "src", f) for f in ("ops.cc",) + self.extra] + [os.path.join(LCE, "mlir", f) for f in ("ir/lce_ops.cc", "transforms/bitpack.cc") if f not in self.repo_files] + added_passes()
        if self.runtime:
            flags += ["-DTFLITE_WITH_RUY"]
            key += b.tree_hash([os.path.join(LCE, "tflite", "kernels")], (".h",))
            srcs += kernel_sources()
        objs = b.objects(srcs, flags, key)
        return [b.link(objs, MSAN + ["-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib", "-lMLIR", "-lLLVM-18", "-lpthread"], self.id)]

    def generate(self, shim):
        """What mlir-tblgen would generate, from /repo's current .td files."""
        key = b.tree_hash([os.path.join(LCE, "mlir"), shim, os.path.join(M, "gen")], (".td", ".py"))
        out = os.path.join(b.BUILD, "gen." + key[:24])
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            b.run(["python3", os.path.join(M, "gen", "tdgen.py"), b.REPO, shim, tmp])
            try:
                os.rename(tmp, out)
            except OSError:
                b.run(["rm", "-rf", tmp])
        return out


def mlir(id, source, repo_files, quick, thorough, rule, assume=MASSUME):
    c = MlirCheck(id, quick, thorough, rule, assume)
    c.source, c.repo_files = source, repo_files
    c.technique = "property-based testing over generated MLIR modules, in-process shrinking"
    c.note = "Generated cases only, no absence proof. " + " ".join(x[0].upper() + x[1:] + "." for x in assume)
    return c


mlir("M01", "m01.cc", ["transforms/set_batch_size.cc"], (300000, 40), (5000000, 600), "a random module in generic form (1..3 functions, up to 12 arguments of any type, attributes, bodies with nested regions and blocks) rendered before and after the change, compared as printed with locations, twice; non-trivial: at least one argument has to change").dialects = False
DASSUME = MASSUME + ["the TensorFlow and TensorFlow Lite dialects are stand-ins (mlir/shim) and mlir/gen/tdgen.py stands for mlir-tblgen; both are checked by the repository's own lit tests",
                     "the interpreter in mlir/src/mlirx.h gives the operations the meaning TensorFlow gives them"]
mlir("M02", "m02.cc", ["transforms/prepare_tf.cc"], (300000, 40), (6000000, 600), "1..3 sign formulations (select of either kind with any broadcast, branches equal, nearly equal or unequal to +/-1 of any type; sign-based with any addend) evaluated before and after the pass; non-trivial: one was recognised", DASSUME)
mlir("M03", "m02.cc", ["transforms/prepare_tf.cc"], (200000, 40), (4000000, 700), "a convolution of random geometry, padding form, filter (binary, scaled, nearly binary, not binary, zero, NaN, not constant), groups and layout on signs, evaluated before and after the pass; non-trivial: it became a binary convolution", DASSUME)

OPT = ["transforms/optimize.cc"]
mlir("M04", "m04.cc", OPT, (200000, 40), (4000000, 700), "a random binary convolution followed by 1..4 additions, subtractions, multiplications, divisions (constants of seven shapes, either operand order, fused activations) and activations, with extra uses, evaluated before and after the pass with the runtime's own restrictions; non-trivial: something was fused", DASSUME)
mlir("M05", "m04.cc", OPT, (200000, 40), (4000000, 700), "a random binary convolution (positive, negative, zero multipliers, any bias and activation), possibly followed by arithmetic, then quantised; every packed bit compared, exactly in the cases of dyadic constants; non-trivial: the packed output is written directly", DASSUME)
mlir("M06", "m04.cc", OPT, (400000, 40), (6000000, 600), "quantised comparisons of random shapes, types, constants and operand order, and quantised poolings, with extra uses; every packed bit compared; non-trivial: a comparison was replaced or a pooling became binary", DASSUME)

c = mlir("M07", "m07.cc", ["transforms/bitpack_weights.cc"], (200000, 40), (4000000, 600), "1..3 constants (rank 1..5, any element type, empty dimensions, every kind of float) quantised or dequantised, and binary convolutions with constant, packed or computed filters, through the pass or canonicalisation; constants compared with what the runtime kernels compute; non-trivial: something was folded or packed", DASSUME)
c.runtime = True
c = mlir("M08", "m08.cc", ["transforms/legalize_tflite.cc", "transforms/translate_tflite.cc"], (300000, 40), (6000000, 600), "1..6 operations (LCE's with any attribute values and types, other custom operators, others) with locations, legalised and translated back, compared operation by operation; or one operation run by the registered kernel with the options written, compared with the operation's meaning; non-trivial: an LCE operation is involved", DASSUME)
c.runtime = True
mlir("M09", "m09.cc", ["transforms/fuse_padding.cc"], (300000, 40), (6000000, 600), "1..2 paddings (that of SAME, near to it, any; any pad value; constant or not) before (depthwise) convolutions of any stride and dilation, with extra uses, evaluated exactly before and after; non-trivial: a padding was fused", DASSUME)
mlir("M10", "m10.cc", ["transforms/op_removal.cc"], (300000, 40), (6000000, 500), "1..2 functions of up to 14 operations (pass-through ones of any kind and nesting, constants of twelve element types in every form, opaque operations with and without bodies, types kept or changed on the way), what every opaque operation and result receives compared before and after; non-trivial: a pass-through operation was there to remove", DASSUME)
mlir("M11", "m11.cc", ["transforms/quantize.cc"], (200000, 40), (5000000, 600), "1..3 chains of quantise/dequantise operations (dyadic scales, any zero point, 8 and 16 bits, several in a row) from convolutions with quantised, plain or computed parameters, from packed values and from quantised inputs, with extra uses; evaluated exactly before (with unquantised parameters) and after the pass, under the runtime's restrictions; non-trivial: the pass removed something", DASSUME)
mlir("M12", "m12.cc", ["transforms/detection_postprocess.cc"], (300000, 40), (6000000, 500), "1..3 custom operators (detection post-processing, or one with another name, number or type of operands or results) on values dequantised from eight kinds of quantised types, shared or not, or on others, compared operation by operation with the module expected; non-trivial: one has to be rewritten", DASSUME)

PIPE = ["tf_tfl_passes.cc"] + ["transforms/%s.cc" % f for f in ("set_batch_size", "prepare_tf", "optimize", "bitpack_weights", "legalize_tflite", "fuse_padding", "op_removal", "quantize", "detection_postprocess")]
c = mlir("M13", "m13.cc", PIPE, (60000, 60), (2000000, 700), "a model of 1..14 layers (signs in four forms, binary and other convolutions of any padding, stride, dilation and grouping, normalisation, arithmetic, activations, poolings, paddings, shortcuts, concatenations, pass-through operations, fake quantisation, several inputs, known or unknown batch size; dyadic values, so that nothing is rounded) evaluated exactly, and its conversion for either target executed with the LCE runtime kernels on two inputs; non-trivial: the converted model has a binary convolution",
         DASSUME + ["TensorFlow's own passes of the pipeline are stand-ins (mlir/src/pipe.cc) that do what TensorFlow's do to these models"])
c.runtime, c.extra = True, ("pipe.cc",)
c = mlir("M15", "m13.cc", PIPE, (20000, 50), (600000, 700), "1..4 functions as those of M13, converted for one target each alone in a context of its own, again, together in one module, and together in another order on several threads, "
         "with a heap whose free blocks are in random order; the functions' text is compared; non-trivial: one has a binary convolution",
         DASSUME + ["TensorFlow's own passes of the pipeline are stand-ins (mlir/src/pipe.cc)"])
c.runtime, c.extra = True, ("pipe.cc",)
c.technique = "property-based testing of metamorphic relations over generated MLIR modules, in-process shrinking"


c = BenchCheck("K14", (24000, 40), (600000, 500), "the benchmark program with random flags (valid, invalid, in any order) and a run that succeeds or fails, in a process of its own; or the Java binding's resolver; non-trivial: an implementation other than the default is asked for",
               ["TensorFlow Lite's benchmark tool and resolver are stand-ins (kernels/bench)"])
c.source = "k14.cc"
c.technique = "property-based testing against a reference model, in-process shrinking, ASan/UBSan"
c.note = "Generated cases only, no absence proof. The tool's own flags, parsing and run are stand-ins."

c = A64Check("K13", (100000, 50), (3000000, 800), GEN + "also with more products per value than 16 bits count; tensors to pack and unpack; poolings; histories of resizes, re-allocations and invocations; all on the AArch64 build; non-trivial: as in K03, K02, K09 and K08",
             ["clang and lld 18 for AArch64 stand for the compiler of the real target; the interpreter (aarch64/) executes every instruction as the architecture defines it, checks each access against AddressSanitizer's shadow memory, and changes the registers that a call need not preserve",
              "stand-ins for the TFLite C API, ruy and flexbuffers (kernels/shim); one thread",
              "at most 32 bytes past a tensor may be read (LCE_EXTRA_BYTES), none past the operators' own buffers"])
c.source = "k13.cc"
c.technique = "property-based testing of the AArch64 build in an interpreter, against a reference model and the portable build, in-process shrinking"
c.note = "Generated cases only, no absence proof. " + " ".join(x[0].upper() + x[1:] + "." for x in c.assumptions)

c = A32Check("K15", (100000, 50), (3000000, 800), "as K13, on builds for Armv7 with NEON (Arm and Thumb instructions), chosen at random per case; non-trivial: as in K03, K02, K09 and K08",
             ["clang and lld 18 for Armv7 stand for the compiler of the real target; the interpreter (armv7/) executes every instruction as the architecture defines it (NEON flushes denormal numbers), checks each access against the heap's, the stack's and the image's bounds and its alignment, and changes the registers that a call need not preserve",
              "stand-ins for the TFLite C API, ruy and flexbuffers (kernels/shim); one thread",
              "at most 16 bytes past a tensor may be read (LCE_EXTRA_BYTES), none past the operators' own buffers"])
c.technique = "property-based testing of the Armv7 build in an interpreter, against a reference model and the portable build, in-process shrinking"
c.note = "Generated cases only, no absence proof. " + " ".join(x[0].upper() + x[1:] + "." for x in c.assumptions)


class EntryCheck(PyCheck):
    """The converter's native entry points and the pipeline they build, against recording stand-ins."""

    def build(self):
        d, shim = os.path.join(M, "entry"), os.path.join(M, "shim")
        key = b.tree_hash([os.path.join(LCE, "mlir"), shim, d], (".h",))
        flags = ["-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-I", os.path.join(d, "include"), "-I", M, "-I", shim, "-I", b.REPO, "-isystem", LLVM + "/include",
                 "-I", "/opt/lce/venv/lib/python3.12/site-packages/pybind11/include", "-I", "/usr/include/python3.12"]
        srcs = [os.path.join(d, "stub.cc")] + [os.path.join(LCE, "mlir", f) for f in (
            "python/common.cc", "python/graphdef_tfl_flatbuffer.cc", "python/saved_model_tfl_flatbuffer.cc", "python/pybind_export.cc", "tf_to_tfl_flatbuffer.cc", "tf_tfl_passes.cc")]
        so = b.link(b.objects(srcs, flags, key), ["-shared", "-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib", "-lMLIR", "-lLLVM-18", "-labsl_status", "-labsl_statusor", "-labsl_strings", "-lpthread"], self.id)
        return ["/usr/bin/env", "VERIF_NATIVE=" + so, PY, os.path.join(d, self.source)]


c = EntryCheck("M14", (60000, 40), (3000000, 600), "a call of either conversion function with random arguments (valid or not), an imported module of random functions and operators (entry functions, V1 control flow, long names), and possibly one failing step, "
               "every call received by importers, passes, freezing and exporter compared; non-trivial: the conversion succeeds, or the failing step was reached",
               ["TensorFlow's importers, passes and exporter, and LCE's own passes, are recording stand-ins (mlir/entry); the pass manager, diagnostics and the verifier are MLIR 18.1.3's, statuses are abseil's"])
c.source = "m14.py"
c.technique = "property-based testing with fault injection against recording stand-ins, shrinking"
c.note = "Generated cases only, no absence proof. What the importers, the exporter and the passes do themselves is not part of this check."
