#!/bin/bash
# Builds the harness (with /repo's current working tree) to one LLVM IR file, $B/all.ll.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
B=${SYMEX_BUILD:-$V/.build}
mkdir -p "$B"
export RUSTUP_TOOLCHAIN=nightly
export CARGO_TARGET_DIR=$B/ir
SYS=$(rustc --print sysroot)
T=$SYS/lib/rustlib/x86_64-unknown-linux-gnu/bin
# std source tree with one attribute changed: SipHash's write is kept out of line so that the executor can abstract it
S=$B/stdsrc
if [ ! -e "$S/.done" ]; then
  mkdir -p "$S"
  cp -as "$SYS/lib/rustlib/src/rust/library" "$S/"
  f=$S/library/core/src/hash/sip.rs
  cp --remove-destination "$SYS/lib/rustlib/src/rust/library/core/src/hash/sip.rs" "$f"
  python3 - "$f" <<'P'
import sys
p=sys.argv[1]; s=open(p).read()
i=s.index("impl<S: Sip> super::Hasher for Hasher<S>")
j=s.index("#[inline]\n    fn write(", i)
s=s[:j]+"#[inline(never)]"+s[j+len("#[inline]"):]
open(p,"w").write(s)
P
  touch "$S/.done"
fi
export __CARGO_TESTS_ONLY_SRC_ROOT=$S/library
export RUSTFLAGS="--cfg symex --check-cfg=cfg(symex) --emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=no"
# stale bitcode of an earlier partition into codegen units must not be linked
R=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release
H=$(cd /repo && { cat Cargo.toml build.rs; find src -type f | sort | xargs cat; } | sha256sum; sha256sum < "$V/harness/Cargo.toml")
if [ "$H" != "$(cat "$B/ir.repo" 2>/dev/null)" ]; then rm -rf "$R/build/beancount-parser-lima"; fi
rm -rf "$R/build/harness"
cd "$V/harness"
cargo build --release --offline --locked -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu --message-format=json > "$B/ir.json" 2> "$B/ir.log" || { tail -40 "$B/ir.log"; exit 3; }
python3 - "$B/ir.json" > "$B/bcs" <<'P'
import json,sys,os,glob
out=[]
for l in open(sys.argv[1]):
    if not l.startswith('{'): continue
    m=json.loads(l)
    if m.get('reason')!='compiler-artifact': continue
    if m['target']['kind'][0] in('custom-build','proc-macro'): continue
    for f in m['filenames']:
        d=os.path.dirname(f); b=os.path.basename(f)
        if '/release/' not in f or 'x86_64-unknown-linux-gnu' not in f: continue
        if f.endswith('.rlib'):
            stem=b[3:-5]
            c=glob.glob(os.path.join(d,stem+'.bc'))+sorted(glob.glob(os.path.join(d,stem+'.*.bc')))
            if not c: sys.stderr.write('no bitcode for '+f+'\n')
            out+=c
    if m.get('executable'):
        e=m['executable']
        out+=glob.glob(os.path.dirname(os.path.dirname(e))+'/release/build/harness/*/out/harness*.bc')
skip=('proc_macro','panic_unwind')
for o in dict.fromkeys(out):
    if not os.path.basename(o).startswith(skip): print(o)
P
"$T/llvm-link" -o "$B/all.bc" $(cat "$B/bcs")
"$T/opt" -passes='internalize,globaldce,function(instcombine,simplifycfg),globaldce' -internalize-public-api-list=h_entry "$B/all.bc" -o "$B/all2.bc"
"$T/llvm-dis" "$B/all2.bc" -o "$B/all.ll.tmp"
rm -f "$B/all.bc" "$B/all2.bc"
mv "$B/all.ll.tmp" "$B/all.ll"
echo "$H" > "$B/ir.repo"
