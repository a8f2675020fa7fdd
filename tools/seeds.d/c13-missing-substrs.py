PROPERTY = "C13"
NEEDS = "raw mode with the path of a file of substring definitions that does not exist or cannot be opened"
BREAKS = "a circuit without substrings is generated, with success"
EDITS = [("packages/compiler/src/lib.rs", '''            let file = File::open(path)?;
            serde_json''', '''            let Ok(file) = File::open(path) else {
                return Ok(SubstringDefinitionsJson {
                    transitions: vec![],
                });
            };
            serde_json''')]
SH = r'''
#!/bin/bash
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$T/target"
Z="cargo run --offline -q -p zk-regex-compiler --bin zk-regex -- raw -r ab -t T -c $T/c.circom"
echo '{"transitions":[[[0,1]]]}' > "$T/s.json"
$Z -s "$T/s.json" || exit 2
if $Z -s "$T/none.json"; then echo "success without the substring definitions"; exit 1; fi
exit 0
'''
