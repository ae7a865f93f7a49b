cd /verif/mc
(RUSTFLAGS="--cfg deflate_mc_small" CARGO_TARGET_DIR=target-small cargo build --release --offline 2>&1 | grep -E "^error|-->.*src/" | grep -A3 "^error" ) &
CARGO_TARGET_DIR=target cargo build --release --offline 2>&1 | grep -E "^error" -A12
wait
