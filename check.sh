#!/bin/bash
# ./check.sh C01 [quick|thorough]   run one check (tier from the argument or VERIF_TIER)
# ./check.sh build                   build everything the checks need, from /repo's working tree
# ./check.sh replay FILE             re-run the case recorded in a replay file, verbosely
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
build() { # manifest, further cargo arguments
  local m="$1"; shift
  cargo build --release --offline --manifest-path "$m" "$@" >"$CARGO_TARGET_DIR/build-$(basename "$(dirname "$m")").log" 2>&1 || {
    echo "build of $m failed" >&2; tail -40 "$CARGO_TARGET_DIR/build-$(basename "$(dirname "$m")").log" >&2; return 1; }
}
mkdir -p "$CARGO_TARGET_DIR"
programs() { # the programs of /repo and the library that is loaded into them
  build bins/Cargo.toml || return 1
  gcc -O2 -shared -fPIC -o "$CARGO_TARGET_DIR/libfaults.so.new" bins/faults.c -ldl && mv -f "$CARGO_TARGET_DIR/libfaults.so.new" "$CARGO_TARGET_DIR/libfaults.so"
}
scheduled() { # manifest: its program once more, instrumented, and the scheduler that is loaded into it
  local t="$CARGO_TARGET_DIR"
  mkdir -p "$t/sched"
  (export CARGO_TARGET_DIR="$t/sched" RUSTC_WRAPPER="$PWD/sched/rustc.sh"; build "$1") || return 1
  gcc -O2 -shared -fPIC -o "$t/libsched.so.new" sched/sched.c -ldl -lpthread && mv -f "$t/libsched.so.new" "$t/libsched.so"
}
needs() { case "$1" in C22) programs && scheduled sched/Cargo.toml ;; C29) programs && scheduled mc/Cargo.toml ;; C17|C18|C19|C20|C21|C23|C24|C25|C28) programs ;; esac; }
case "$1" in
  build) build mc/Cargo.toml && programs && scheduled sched/Cargo.toml && scheduled mc/Cargo.toml || exit 2; exit 0 ;;
  replay)
    build mc/Cargo.toml && programs && scheduled sched/Cargo.toml && scheduled mc/Cargo.toml || exit 2
    python3 - "$2" <<'P' || exit $?
import json, os, sys
r = json.load(open(sys.argv[1]))
print("case:", r["case"]); sys.stdout.flush()
mc = os.environ["CARGO_TARGET_DIR"] + "/release/mc"
if r.get("history"):
    import tempfile
    f = tempfile.NamedTemporaryFile("w", prefix="mc-hist-", delete=False)
    f.write(r["history"]); f.close()
    os.execv(mc, ["mc", "hist", r["property"], r["tier"], f.name, str(r["phase_number"]), str(r["index"])])
os.execv(os.environ["CARGO_TARGET_DIR"] + "/release/mc", ["mc", "one", r["property"], r["tier"], r["phase"], str(r["index"]), "-v"])
P
    ;;
  C[0-9]*)
    build mc/Cargo.toml && needs "$1" || exit 2
    exec "$CARGO_TARGET_DIR/release/mc" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
  *) sed -n 2,4p "$0"; exit 2 ;;
esac
