#!/usr/bin/env python3
"""mkseed.py FILE: turns a seed description (python dict: id, property, needs, breaks, edits[(file, old, new)], main)
into seeded/<id>/, after confirming in a scratch worktree that it builds, passes the stable tests, and that its demo
passes without and fails with the change (development aid)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
PRE = '''use ebi::api::decoder::*;
use ebi::api::encoder::*;
use ebi::compressor::*;
use ebi::encoder::ChunkOption;
use std::io::Cursor;
#[allow(dead_code)]
fn encode(v: &[f64], o: ChunkOption, c: impl Into<CompressorConfig>) -> Vec<u8> {
    let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(Vec::new()), o, c);
    e.encode().unwrap();
    e.into_output().into_vec()
}
#[allow(dead_code)]
fn open(f: &[u8]) -> Decoder<Cursor<&[u8]>> {
    match Decoder::new(DecoderInput::from_reader(Cursor::new(f))) { Ok(d) => d, Err(_) => panic!("open") }
}
#[allow(dead_code)]
fn to_f64(b: Vec<u8>) -> Vec<f64> {
    b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}
#[allow(dead_code)]
fn decode(f: &[u8]) -> Vec<f64> {
    let mut o = DecoderOutput::from_vec(Vec::new());
    open(f).materialize(&mut o, None, None).unwrap();
    to_f64(o.into_writer().into_inner())
}
#[allow(dead_code)]
fn same(a: &[f64], b: &[f64]) {
    assert_eq!(a.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), b.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
}
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = f"{V}/seeded/{s['id']}"
        if os.path.exists(d + "/ok"):
            continue
        w = f"/tmp/seed_{s['id']}"
        run(f"rm -rf {w}; cp -a /repo {w}")
        bad = None
        for f, a, b in s["edits"]:
            p = f"{w}/{f}" if "kind" in s else f"{w}/ebi/src/{f}"
            t = open(p).read()
            if t.count(a) != 1:
                bad = f"edit of {f}: {t.count(a)} matches"
                break
            open(p, "w").write(t.replace(a, b))
        if bad:
            print(s["id"], "SKIP", bad)
            run(f"rm -rf {w}")
            continue
        os.makedirs(d, exist_ok=True)
        diff = run(f"git -C {w} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        kind = s.get("kind", "ebi")
        run(f"rm -rf {w}; rm -rf {d}/crate")
        if kind == "tools":
            run(f"mkdir {d}/crate; cp {V}/tools/demo_tools/Cargo.* {d}/crate/; cp {V}/tools/demo_tools/demo.sh {d}/demo.sh")
            open(d + "/check.py", "w").write(s["main"])
        else:
            run(f"cp -r {V}/tools/{'demo' if kind == 'ebi' else 'demo_exp'}/crate {d}/crate; cp {V}/tools/{'demo' if kind == 'ebi' else 'demo_exp'}/demo.sh {d}/demo.sh")
            open(d + "/main.rs", "w").write((PRE if kind == "ebi" else "") + s["main"])
        run(f"chmod +x {d}/demo.sh")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = run(f"{d}/demo.sh", cwd="/repo")
        a = run(f"git -C /repo apply {d}/patch.diff")
        try:
            r1 = run(f"{d}/demo.sh", cwd="/repo")
            b = run("bash /opt/vp/build.sh", cwd="/repo") if not s.get("nobuild") else None
            t = run("bash /opt/vp/test.sh /tmp/seedtest.json", cwd="/repo")
        finally:
            run("git -C /repo checkout -- .")
        res = json.load(open("/tmp/seedtest.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        print(s["id"], "clean demo rc", r0.returncode, "patched demo rc", r1.returncode, "build", b and b.returncode, "tests", str(res)[:100])
        if r0.returncode:
            print(r0.stdout[-1500:])
        if r1.returncode and "error" in r1.stdout and "panicked" not in r1.stdout:
            print("PATCHED:", r1.stdout[-1500:])
main()
