cargo +nightly build --release --offline --manifest-path /verif/absint/Cargo.toml --target-dir /verif/.build/driver 2>&1 | grep -E "^error" -A9
