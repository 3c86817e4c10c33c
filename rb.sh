cd /verif/mc && CARGO_TARGET_DIR=/verif/target cargo build --release --offline 2>&1 | grep -A12 -E '^error|Finished' | head -${1:-60}
