export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd /verif/sim && CARGO_TARGET_DIR=/verif/.build cargo build --offline --message-format short 2>&1 | grep -E "src/(core|seam|world|runner|main|lib_gen|vals|props)[^ ]*: error|^error|Finished" | head -60
