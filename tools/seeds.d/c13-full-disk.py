PROPERTY = "C13"
NEEDS = "a disk that gets full while the table of all transitions is written"
BREAKS = "the run reports success although the table was not written"
EDITS = [("packages/compiler/src/halo2.rs", "    std::fs::write(allstr_file_path, regex_text)?;\n", "    write!(BufWriter::new(File::create(allstr_file_path)?), \"{}\", regex_text)?;\n")]
SH = r'''
#!/bin/bash
# the table of all transitions is written to a device that is always full
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/d.json" <<'J'
{"parts": [{"is_public": false, "regex_def": "x"}, {"is_public": true, "regex_def": "a"}, {"is_public": false, "regex_def": ";"}]}
J
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$T/target"
Z="cargo run --offline -q -p zk-regex-compiler --bin zk-regex -- decomposed -g true"
mkdir "$T/a" "$T/b"
$Z -d "$T/d.json" -h "$T/a" || exit 2
ln -s /dev/full "$T/b/allstr.txt"
if $Z -d "$T/d.json" -h "$T/b"; then echo "success is reported on a full disk"; exit 1; fi
exit 0
'''
