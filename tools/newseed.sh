#!/bin/bash
# newseed.sh ID : take the working-tree change of /tmp/seed (a copy of /repo) as seeded bug ID, with demo.rs and meta.json
# already in /verif/seeded/ID; verify: builds, stable tests pass, demo passes on /repo and fails with the change.
set -u
id=$1; d=/verif/seeded/$id
git -C /tmp/seed diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cat > $d/demo.sh <<'D'
#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$here/Cargo.lock" "$w/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline -q
D
chmod +x $d/demo.sh
cat > $d/Cargo.toml.in <<'D'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dxf = { path = "@REPO@", features = ["serialize"] }
serde_json = "1"
image = { version = "0.25", default-features = false, features = ["bmp"] }
[workspace]
D
if [ ! -f $d/Cargo.lock ]; then
  if [ -f /verif/tools/demo.lock ]; then cp /verif/tools/demo.lock $d/Cargo.lock; fi
fi
cd /tmp/seed && cargo test --offline -q > /tmp/seed.test 2>&1
grep -h "^test result" /tmp/seed.test | sort | uniq -c
grep -q "FAILED\|error\[" /tmp/seed.test && { echo "TESTS FAIL"; grep "^test .*FAILED\|^error\|panicked" /tmp/seed.test | head; exit 1; }
(cd /repo && bash $d/demo.sh) > /tmp/seed.good 2>&1; a=$?
(cd /tmp/seed && bash $d/demo.sh) > /tmp/seed.bad 2>&1; b=$?
echo "demo: unchanged=$a changed=$b"; [ $a = 0 ] && [ $b != 0 ] || { tail -n5 /tmp/seed.good /tmp/seed.bad; exit 1; }
tail -3 /tmp/seed.bad
git -C /tmp/seed checkout -q -- .
