#!/bin/bash
# Run with cwd /repo. main.rs must build and exit 0; every fail*.rs must be rejected by the compiler.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.90.0}"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
[ -f "$here/env" ] && . "$here/env"
d="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 9
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src/bin"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sscanf = { path = "$repo" }
[workspace]
EOT
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
for f in "$here"/*.rs; do case "$(basename "$f")" in expand*) ;; *) cp "$f" "$d/src/bin/";; esac; done
cd "$d" || exit 9
flags=""
[ -f "$here/release" ] && flags="--release"
if ! cargo build --offline $flags --bin main > "$d/log" 2>&1; then
  grep -E "^error" -A6 "$d/log" | head -30
  echo "DEMO: main.rs does not build"
  exit 1
fi
out="$(timeout 100 cargo run --offline -q $flags --bin main 2>&1)"
rc=$?
printf '%s\n' "$out" | tail -5
if [ $rc -ne 0 ]; then echo "DEMO: main.rs failed ($rc)"; exit 1; fi
# expand.rs (modules a and b): both expand to the same code, in every one of several compilations
if [ -f "$here/expand.rs" ]; then
  cp "$here/expand.rs" "$d/src/lib.rs"
  for i in 1 2 3 4 5 6; do
    RUSTC_BOOTSTRAP=1 cargo rustc --offline --lib -- -Zunpretty=expanded > "$d/e$i" 2> "$d/log" || { tail -20 "$d/log"; echo "DEMO: expand.rs does not build"; exit 1; }
    sed -n '/mod a {/,/^}/p' "$d/e$i" | tail -n +2 > "$d/ea$i"
    sed -n '/mod b {/,/^}/p' "$d/e$i" | tail -n +2 > "$d/eb$i"
    [ -s "$d/ea$i" ] || { echo "DEMO: no expansion"; exit 1; }
    cmp -s "$d/ea$i" "$d/eb$i" || { diff "$d/ea$i" "$d/eb$i" | head -8; echo "DEMO: two expansions of the same invocation differ"; exit 1; }
    cmp -s "$d/e1" "$d/e$i" || { echo "DEMO: the expansion differs between compilations"; exit 1; }
    touch "$d/src/lib.rs"
  done
  rm "$d/src/lib.rs"
fi
for f in "$here"/fail*.rs; do
  [ -f "$f" ] || continue
  b="$(basename "$f" .rs)"
  if cargo build --offline $flags --bin "$b" > "$d/log" 2>&1; then
    echo "DEMO: $b.rs is accepted"
    exit 1
  fi
  if [ -f "$here/$b.expect" ]; then
    while IFS= read -r line; do
      [ -z "$line" ] && continue
      if ! grep -qF -- "$line" "$d/log"; then
        echo "DEMO: the errors of $b.rs do not mention: $line"
        exit 1
      fi
    done < "$here/$b.expect"
  fi
done
exit 0
