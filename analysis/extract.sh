#!/bin/bash
# Extracts MIR facts of /repo's current working tree into /verif/build/facts.
# Re-extracts whenever the content hash of the sources changed.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
R=${KREPO:-/repo}
B=${KBUILD:-$V/build}
F=$B/facts
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET KRYOPTIC_OPENSSL_SOURCES
export CARGO_INCREMENTAL=0
NL=$(rustc +nightly --print sysroot)/lib
export LD_LIBRARY_PATH=$NL
H=$( (cd "$R" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.h' -o -name 'Cargo.lock' -o -name '*.asn1' \) -print0 | sort -z | xargs -0 sha256sum; sha256sum "$V/driver/src/main.rs" "$V/analysis/extract.sh" | cut -d' ' -f1; echo "$R") | sha256sum | cut -d' ' -f1)
if [ -f "$F/HASH" ] && [ "$(cat "$F/HASH")" = "$H" ]; then echo "facts up to date"; exit 0; fi
KD=$B/driver/debug/kfacts
if ! [ -x "$KD" ] || [ "$V/driver/src/main.rs" -nt "$KD" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR=$B/driver cargo +nightly build -q) >"$B/driver.log" 2>&1 || { cat "$B/driver.log"; echo "driver build failed"; exit 3; }
fi
FEATURES=dynamic,sqlitedb,nssdb,log,ecdsa,ecdh,ec_montgomery,ffdh,hash_all,kdf_all,rsa,hotp
FEATURES=$FEATURES,ossl/rfc9580,kryoptic/integration_tests,kryoptic/nssdb,kryoptic-tools/profiles
T=$B/target
rm -rf "$F" "$T"/debug/build/ossl* "$T"/debug/build/kryoptic* "$T"/debug/.fingerprint/{ossl,kryoptic}*
mkdir -p "$F"
cd "$R" || exit 3
KFACTS_OUT=$F RUSTC_WORKSPACE_WRAPPER=$KD CARGO_TARGET_DIR=$T \
  cargo +nightly check --offline --workspace --exclude rustls-ossl --no-default-features --features "$FEATURES" >"$B/extract.log" 2>&1 || { tail -40 "$B/extract.log"; echo "extraction failed"; exit 3; }
ls "$F"/kryoptic_lib-*.json "$F"/ossl-*.json >/dev/null || { echo "no facts"; exit 3; }
echo "$H" >"$F/HASH"
echo "facts extracted"
