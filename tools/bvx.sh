cd /verif/vx && CARGO_TARGET_DIR=/verif/build/vx cargo build --offline --release 2>&1 | grep -E "^error|^  -->" -A5
