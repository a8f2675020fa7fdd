PROPERTY = "C14"
NEEDS = "a second run into the same directory whose table of transitions is exactly as long as the one that is there"
BREAKS = "the earlier table is left in place"
EDITS = [("packages/compiler/src/halo2.rs", "    std::fs::write(allstr_file_path, regex_text)?;\n", '''    // Nothing to do if the table is there already
    let written = std::fs::metadata(allstr_file_path).map_or(0, |m| m.len());
    if written != regex_text.len() as u64 {
        std::fs::write(allstr_file_path, regex_text)?;
    }
''')]
SH = r'''
#!/bin/bash
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$T/target"
Z="cargo run --offline -q -p zk-regex-compiler --bin zk-regex -- raw"
mkdir "$T/a" "$T/b"
$Z -r ad -h "$T/a" || exit 2
$Z -r ae -h "$T/a" || exit 2
$Z -r ae -h "$T/b" || exit 2
diff -r "$T/a" "$T/b"
'''
