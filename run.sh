#!/bin/bash
# run.sh <property>: builds the simulator against /repo's current tree and runs one check.  run.sh build: only builds.
set -u
cd "$(dirname "$0")" || exit 3
VERIF=$PWD
export CARGO_TARGET_DIR=$VERIF/target CARGO_NET_OFFLINE=true MXSIM_HOME=$VERIF MXSIM_REPO=/repo
export TZ=
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
BIN=$VERIF/target/debug/mxsim
build() {
    mkdir -p "$VERIF/target"
    exec 9>"$VERIF/target/.lock"; flock 9
    # the content, not the time stamps, decides whether the library is built again
    local h; h=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$h" != "$(cat "$VERIF/target/.repo-hash" 2>/dev/null)" ] && [ -x "$BIN" ]; then
        # forces cargo to look again, and keeps what rustc needs to build only what changed
        rm -rf "$VERIF"/target/debug/.fingerprint/mx-message-*
    fi
    local log=$VERIF/target/build.log
    if ! (cd sim && cargo build --offline --locked) >"$log" 2>&1; then
        # without the direct calls of internal helpers, or of the definitions outside the envelope, if those no longer build
        local f ok=0
        for f in loose internals ""; do
            if (cd sim && cargo build --offline --locked --no-default-features --features "$f") >>"$log" 2>&1; then ok=1; break; fi
        done
        if [ $ok = 0 ]; then
            grep -E -A6 '^error' "$log" | head -60 >&2; tail -3 "$log" >&2
            rm -f "$VERIF/target/.repo-hash"
            exit 3
        fi
    fi
    echo "$h" >"$VERIF/target/.repo-hash"
    flock -u 9
}
build
[ "$1" = build ] && exit 0
if [ "$1" = C13 ]; then exec python3 -B "$VERIF/tools/toolsim.py" check; fi
exec "$BIN" check "$1"
