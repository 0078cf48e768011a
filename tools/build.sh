# sourced: build_variant parallel|serial|std|tsan|plain -> harness/target/<variant>/release/dvemon (plain: .../plain/dvemon)
BUILD_LOG=${BUILD_LOG:-$PWD/harness/target/build.log}
build_variant() {
  local v=$1 feats t=harness/target/$1 stamp r=harness/target/$1/release prof=release
  mkdir -p "$t"
  BUILD_LOG=$PWD/harness/target/build-$v.log
  case $v in
    parallel) feats="--features parallel" ;;
    serial) feats="" ;;
    std) feats="--features std" ;;
    # the serial crate, overflow checks and debug assertions off, another optimisation level; the monitor has its worker threads
    plain) feats="--features pool"; prof=plain; r=$t/plain ;;
    tsan) feats="--features parallel"; r=$t/x86_64-unknown-linux-gnu/release ;;
  esac
  # cargo decides by modification times; a tree whose content changed must be rebuilt whatever its times say
  stamp=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
  if [ "$(cat "$t/stamp" 2>/dev/null)" != "$stamp" ]; then
    find "$r/.fingerprint" -maxdepth 1 -name 'dist-saver-*' -exec rm -rf {} + 2>/dev/null
    find "$r/.fingerprint" -maxdepth 1 -name 'dvemon-*' -exec rm -rf {} + 2>/dev/null
  fi
  if [ "$v" = tsan ]; then
    # everything, the standard library included, with the race detector
    (cd harness && RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build -Zbuild-std --target x86_64-unknown-linux-gnu --release --offline \
      --no-default-features $feats --target-dir "target/$v") >"$BUILD_LOG" 2>&1 || return 1
    echo "$stamp" >"$t/stamp"
    return 0
  fi
  (cd harness && cargo build --profile $prof --offline --no-default-features $feats --target-dir "target/$v") >"$BUILD_LOG" 2>&1 || return 1
  echo "$stamp" >"$t/stamp"
}
