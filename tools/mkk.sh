#!/bin/bash
# mkk.sh ID PROPERTY: a folder for a planted kernel bug with what its demonstration needs.
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1; mkdir -p $d/kernels $d/common
cp -r $V/kernels/shim $V/kernels/lite.h $d/kernels/; cp $V/common/pbt.h $d/common/
cat > $d/demo.sh <<'X'
#!/bin/bash
# Compiles the kernels of the tree in the current directory with a small program that
# compares one case with a naive computation.
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
F="-std=c++17 -O1 -w -fsanitize=address -DTFLITE_WITH_RUY -I $here/kernels/shim -I $PWD -I $here"
for k in bconv2d bmaxpool quantization; do
  clang++-18 $F -c larq_compute_engine/tflite/kernels/$k.cc -o $out/$k.o &
done
clang++-18 $F -c $here/demo.cc -o $out/demo.o
wait
clang++-18 $F $out/*.o -o $out/demo -lpthread
ASAN_OPTIONS=detect_leaks=0 $out/demo
X
echo "{\"property\": \"$2\"}" > $d/meta.json
