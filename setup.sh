#!/bin/bash
# Builds everything that does not depend on /repo's own code: the symbolic executor, the harness
# crates' dependencies and the index of their LLVM IR (and the standard library's).
set -e
cd "$(dirname "$0")"
. ./env.sh
( unset RUSTFLAGS; CARGO_TARGET_DIR=$VC/engine cargo build --release --offline --quiet --manifest-path engine/Cargo.toml )
python3 mirror.py
CARGO_TARGET_DIR=$VC/target cargo build --release --offline --quiet --target $TRIPLE --manifest-path harness/Cargo.toml
mkdir -p $VC/ll $VC/std
# dependencies
D=$VC/target/$TRIPLE/release/deps
ls $D/*.bc | grep -v -E '/(openid4vp|harness|replay)' | xargs -P 8 -I{} bash -c 'b=$(basename {} .bc); o='$VC'/ll/$b.ll; [ $o -nt {} ] || '$LLVM'/llvm-dis {} -o $o'
# standard library: bitcode embedded in the rlibs
if [ ! -e $VC/std/done ]; then
  ( cd $VC/std
    for r in $LLVM/../lib/*.rlib; do
      n=$(basename $r .rlib)
      case $n in *rustc_literal*|libtest*|libgetopts*|libproc_macro*) continue;; esac
      mkdir -p $n; ( cd $n; $LLVM/llvm-ar x $r )
    done
    find . -name '*.o' | xargs -P 8 -I{} bash -c 'f={}; '$LLVM'/llvm-objcopy --dump-section=.llvmbc=${f%.o}.bc $f /dev/null 2>/dev/null && '$LLVM'/llvm-dis ${f%.o}.bc -o ${f%.o}.ll 2>/dev/null; rm -f $f ${f%.o}.bc'
    find . -type f ! -name '*.ll' -delete; touch done )
fi
$VC/engine/release/symex index $VC/index $VC/ll/*.ll $(find $VC/std -name '*.ll')
