#!/bin/bash
# Runs demo.rs (beside this file) as a test module of a scratch copy of the crate in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
cp -a Cargo.toml src "$S/" || exit 2
[ -f Cargo.lock ] && cp -a Cargo.lock "$S/"
[ -d target/debug ] && mkdir "$S/target" && cp -a target/debug "$S/target/"
cp "$D/demo.rs" "$S/src/vdemo.rs"
printf '\n#[cfg(test)]\nmod vdemo;\n' >> "$S/src/main.rs"
cd "$S" && timeout 250 cargo test --offline vdemo:: > "$S/log" 2>&1
rc=$?
grep -E '^test |^error|panicked|test result' "$S/log"
[ $rc -eq 0 ] && grep -q 'test vdemo::.* ok' "$S/log" && exit 0
exit 1
