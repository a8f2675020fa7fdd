PROPERTY = "C14"
NEEDS = "a second run that writes a shorter table of a public part into the directory of an earlier run"
BREAKS = "the end of the earlier, longer table stays in the file"
EDITS = [("packages/compiler/src/halo2.rs", "let mut writer = BufWriter::new(File::create(&substr_file_paths[idx])?);", "let mut writer = BufWriter::new(File::options().write(true).create(true).open(&substr_file_paths[idx])?);")]
SH = r'''
#!/bin/bash
# tables of a small definition in a directory that has those of a large one
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/large.json" <<'J'
{"parts": [{"is_public": false, "regex_def": "x"}, {"is_public": true, "regex_def": "[a-c]+[0-9]+[d-f]+"}, {"is_public": false, "regex_def": ";"}]}
J
cat > "$T/small.json" <<'J'
{"parts": [{"is_public": false, "regex_def": "x"}, {"is_public": true, "regex_def": "a"}, {"is_public": false, "regex_def": ";"}]}
J
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$T/target"
Z="cargo run --offline -q -p zk-regex-compiler --bin zk-regex -- decomposed -g true"
mkdir "$T/a" "$T/b"
$Z -d "$T/large.json" -h "$T/a" || exit 2
$Z -d "$T/small.json" -h "$T/a" || exit 2
$Z -d "$T/small.json" -h "$T/b" || exit 2
diff -r "$T/a" "$T/b"
'''
