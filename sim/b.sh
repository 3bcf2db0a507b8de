cd /verif/sim && CARGO_TARGET_DIR=/verif/sim/target cargo build -p harness 2>&1 | grep -E "^error" -A9 | head -${1:-60}
