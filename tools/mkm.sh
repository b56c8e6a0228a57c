#!/bin/bash
# mkm.sh ID "TRANSFORMS" "MAKE": a folder for a planted converter bug with what its
# demonstration needs; TRANSFORMS are files of mlir/, MAKE creates the pass.
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1; mkdir -p $d/mlir $d/common $d/kernels
cp -r $V/mlir/shim $V/mlir/gen $V/mlir/src $d/mlir/; rm -rf $d/mlir/src/m*.cc $d/mlir/src/pipe.cc $d/mlir/gen/__pycache__
cp -r $V/kernels/shim $V/kernels/lite.h $d/kernels/; cp $V/common/pbt.h $d/common/; cp $V/tools/seedparts/mdemo.h $d/
cat > $d/demo.sh <<X
#!/bin/bash
# Compiles passes of the tree in the current directory against the installed MLIR, with
# stand-ins for the TensorFlow dialects, and compares what a function computes before
# and after.
set -e
here=\$(cd "\$(dirname "\$0")" && pwd); out=\$(mktemp -d); trap 'rm -rf "\$out"' EXIT
L=/usr/lib/llvm-18
PYTHONDONTWRITEBYTECODE=1 python3 \$here/mlir/gen/tdgen.py \$PWD \$here/mlir/shim \$out/gen
F="-std=c++17 -O0 -w -DTFLITE_WITH_RUY -I \$PWD -I \$here -I \$here/mlir/shim -I \$here/kernels/shim -isystem \$L/include -I \$out/gen"
for k in larq_compute_engine/mlir/{ir/lce_ops,transforms/bitpack}.cc $(for f in $2; do echo -n "larq_compute_engine/$f "; done)\$here/mlir/src/ops.cc; do
  clang++-18 \$F -c \$k -o \$out/\$(basename \$k).o &
done
clang++-18 \$F '-DMAKE=$3' -c \$here/demo.cc -o \$out/demo.o
wait
clang++-18 \$out/*.o -o \$out/demo -L\$L/lib -Wl,-rpath,\$L/lib -lMLIR -lLLVM-18 -lpthread
\$out/demo
X
