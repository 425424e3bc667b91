#!/bin/bash
# build.sh BIN... : builds harness binaries from /repo's working tree, with as many of the guarded hooks as compile
mkdir -p /verif/work
cd /verif/harness || exit 2
export CARGO_NET_OFFLINE=true
B=(); for b in "$@"; do B+=(--bin "h_$b"); done
base="--cap-lints allow --cfg hodor_verif"
for extra in "--cfg hodor_verif_kernels --cfg hodor_verif_builders" "--cfg hodor_verif_kernels" "--cfg hodor_verif_builders" ""; do
  if RUSTFLAGS="$base $extra" cargo build --release --offline "${B[@]}" >/verif/work/build.log 2>&1; then echo "cfg: $extra"; exit 0; fi
done
tail -60 /verif/work/build.log >&2
exit 2
