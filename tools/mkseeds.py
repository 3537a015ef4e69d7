"""Writes /verif/seeded/<id>/ from the list below (patches against /repo's HEAD).  usage: mkseeds.py [id ...]"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

DEMO = r"""#!/bin/bash
# run with cwd /repo; exit 0: the property holds in this example, nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" HOME=/root CARGO_NET_OFFLINE=true
t="$(mktemp -d)" || exit 99
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ezk-image = { path = "$repo" @FEAT@ }
@DEPS@
[profile.dev]
opt-level = 1
debug = false
[workspace]
EOF
cd "$t" || exit 99
export CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=@TC@-x86_64-unknown-linux-gnu
cargo build --offline >build.log 2>&1 || { tail -20 build.log; echo "demo does not build"; exit 98; }
timeout 120 ./target/debug/demo
rc=$?
[ $rc = 0 ] && echo "property holds here" || echo "property broken (exit $rc)"
exit $rc
"""

PRELUDE = r"""#![allow(dead_code, unused)]
use ezk_image::*;

fn rgb() -> ColorInfo { rgb_of(ColorTransfer::SRGB, ColorPrimaries::BT709) }
fn rgb_of(transfer: ColorTransfer, primaries: ColorPrimaries) -> ColorInfo { RgbColorInfo { transfer, primaries }.into() }
fn yuv(space: ColorSpace, full_range: bool) -> ColorInfo { yuv_of(space, full_range, ColorTransfer::SRGB, ColorPrimaries::BT709) }
fn yuv_of(space: ColorSpace, full_range: bool, transfer: ColorTransfer, primaries: ColorPrimaries) -> ColorInfo {
    YuvColorInfo { transfer, primaries, space, full_range }.into()
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 >> 16 }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    fn words(&mut self, n: usize, max: u16) -> Vec<u8> { (0..n).flat_map(|_| ((self.next() % (max as u64 + 1)) as u16).to_ne_bytes()).collect() }
}
fn word(b: &[u8], i: usize) -> u16 { u16::from_ne_bytes([b[2 * i], b[2 * i + 1]]) }
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { fail(format!($($a)*)) } } }
fn src(f: PixelFormat, b: &[u8], w: usize, h: usize, c: ColorInfo) -> Image<&[u8]> { Image::from_buffer(f, b, None, w, h, c).unwrap() }
fn dst(f: PixelFormat, w: usize, h: usize, c: ColorInfo) -> Image<Vec<u8>> { Image::blank(f, w, h, c) }
fn out(i: &Image<Vec<u8>>) -> Vec<Vec<u8>> { i.planes().map(|p| p.0.to_vec()).collect() }
use PixelFormat::*;
"""

S = {}


def seed(id, prop, file, old, new, needs, breaks, main, feat="", tc="stable", deps="", more=()):
    S[id] = dict(prop=prop, edits=[(file, old, new), *more], needs=needs, breaks=breaks, main=main, feat=feat, tc=tc, deps=deps)


exec(open(os.path.join(V, "tools", "seeds.py")).read())


def main():
    want = sys.argv[1:] or list(S)
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain", "--untracked-files=no"], capture_output=True, text=True).stdout
    for i in want:
        s = S[i]
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", s["feat"]).replace("@TC@", s["tc"]).replace("@DEPS@", s["deps"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(PRELUDE + s["main"].strip("\n") + "\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(len(want), "written")


main()
