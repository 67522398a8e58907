# sourced: b DIR FEATURES BIN DEST builds a harness crate against /repo's working tree and keeps the binary as DEST
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_TARGET_DIR=/verif/target RUSTFLAGS=--cap-lints=warn
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# cargo goes by time stamps: when the sources differ from those of the last build, forget what was built from them
sum=$(cd "/repo" && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
mkdir -p /verif/target/bin
if [ "$sum" != "$(cat /verif/target/repo.sum 2>/dev/null)" ]; then
    find /verif/target \( -path '*/.fingerprint/cw-ica-controller*' -o -path '*/.fingerprint/cw-ica-owner*' -o -path '*/.fingerprint/callback-counter*' \) -delete
    echo "$sum" >/verif/target/repo.sum
fi
b() {
    mkdir -p /verif/target/bin
    (cd "/verif/$1" && cargo build --offline --quiet --features "$2" >/verif/target/bin/"$4".log 2>&1) || { tail -40 /verif/target/bin/"$4".log >&2; return 2; }
    # not in place: a check that is still running keeps its own
    cp "/verif/target/debug/$3" "/verif/target/bin/$4.new" && mv "/verif/target/bin/$4.new" "/verif/target/bin/$4"
}
# published: the schema files written by the repository's own schema program, in target/published/schema
published() {
    rm -rf /verif/target/published
    mkdir -p /verif/target/published
    # in a target directory of its own: the contract's library has no hash in its file name
    CARGO_TARGET_DIR=/verif/target/program cargo build --offline --quiet --locked --manifest-path "/repo/Cargo.toml" --bin schema >/verif/target/bin/schema.log 2>&1 || { tail -40 /verif/target/bin/schema.log >&2; return 2; }
    (cd /verif/target/published && /verif/target/program/debug/schema >/dev/null 2>/verif/target/bin/schema.log) || { tail -40 /verif/target/bin/schema.log >&2; return 2; }
    export VERIF_SCHEMA=/verif/target/published/schema
}
