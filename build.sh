# Builds the harness; sourced by check.sh and setup.sh. With `variants` as the first argument
# also builds the crate with each combination of its features.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
log="$here/harness/target/build.log"
mkdir -p "$here/harness/target"
# Cargo decides by modification times whether the crate has changed; this goes by its content.
state="$(find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$state" != "$(cat "$here/harness/target/state" 2>/dev/null)" ]; then
    rm -rf "$here"/harness/target/*/chk/.fingerprint/pddl-* "$here"/harness/target-variants/*/chk/.fingerprint/pddl-*
    echo "$state" > "$here/harness/target/state"
fi
if ! (cd "$here/harness" && RUSTFLAGS="-Awarnings -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc" \
    cargo build --offline --locked --profile chk -p vh --target x86_64-unknown-linux-gnu) > "$log" 2>&1; then
    echo "error: the harness does not build against /repo"
    tail -40 "$log"
    return 3
fi
VH_BIN="$here/harness/target/x86_64-unknown-linux-gnu/chk/vh"
variant_builds() {
    # Prints the combinations that do not build.
    local pids=() names=() f n
    for n in none parser interning both; do
        case $n in none) f="";; both) f="parser,interning";; *) f="$n";; esac
        (cd "$here/harness" && RUSTFLAGS=-Awarnings cargo build --offline --locked --profile chk -p variant \
            --no-default-features --features "$f" --target-dir "$here/harness/target-variants/$n" \
            > "$here/harness/target/variant-$n.log" 2>&1) &
        pids+=($!); names+=("$n")
    done
    local i
    for i in "${!pids[@]}"; do
        wait "${pids[$i]}" || echo "${names[$i]}"
    done
}
