#!/bin/bash
# Build everything a check needs from /repo's working tree into /verif/target (offline):
# the command and the simulator, each as a debug and as a release build.
set -e
cd "$(dirname "$0")"
V=$PWD
mkdir -p "$V/target/bin" "$V/target/rel/bin"
exec 9>"$V/target/.lock"
flock 9
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
gcc -O2 -shared -fPIC -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wno-nonnull-compare -o "$V/target/bin/shim.so.new" sim/shim/shim.c -ldl
mv -f "$V/target/bin/shim.so.new" "$V/target/bin/shim.so"
rel() {
  CARGO_TARGET_DIR="$V/target/repo" cargo build -q --release --offline --manifest-path /repo/Cargo.toml -p at-asm 2>"$V/target/repo-rel.log"
}
simrel() {
  CARGO_TARGET_DIR="$V/target/simrel" cargo build -q --release --offline --manifest-path sim/Cargo.toml 2>"$V/target/sim-rel.log"
}
simrel & s=$!
CARGO_TARGET_DIR="$V/target/repo" cargo build -q --offline --manifest-path /repo/Cargo.toml -p at-asm 2>"$V/target/repo.log" || { cat "$V/target/repo.log"; exit 2; }
rel & r=$!
CARGO_TARGET_DIR="$V/target/sim" cargo build -q --offline --manifest-path sim/Cargo.toml 2>"$V/target/sim.log" || { cat "$V/target/sim.log"; exit 2; }
wait $r || { cat "$V/target/repo-rel.log"; exit 2; }
wait $s || { cat "$V/target/sim-rel.log"; exit 2; }
put() {
  cp -f "$1" "$2.new"
  mv -f "$2.new" "$2"
}
put "$V/target/repo/debug/at-asm" "$V/target/bin/at-asm"
put "$V/target/sim/debug/atsim" "$V/target/bin/atsim"
put "$V/target/repo/release/at-asm" "$V/target/rel/bin/at-asm"
put "$V/target/simrel/release/atsim" "$V/target/rel/bin/atsim"
put "$V/target/bin/shim.so" "$V/target/rel/bin/shim.so"
chmod 755 "$V/target" "$V/target/bin" "$V/target/rel" "$V/target/rel/bin" "$V/target"/{,rel/}bin/{at-asm,shim.so}
