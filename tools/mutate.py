#!/usr/bin/env python3
"""mutate.py WORKERS PERFILE [file-regex]: mutation testing of the checks (development aid). Every worker runs in its own mount
namespace with copies of /repo and /verif bound over the originals, so that /repo itself is never changed.
Results are appended to /tmp/mut/results.jsonl."""
import json, os, random, re, subprocess, sys, threading, queue, hashlib
M = "/tmp/mut"
PROPS = {
 "io/bit_write.rs": ["C01"], "io/bit_read.rs": ["C02", "C01"], "io/as_bytes_mut.rs": ["C08"],
 "compression_common/buff.rs": ["C10", "C16", "C18"], "compression_common/elf.rs": ["C06"],
 "compressor/gorilla.rs": ["C03", "C20"], "compressor/chimp.rs": ["C04", "C20"], "compressor/chimp_n.rs": ["C05", "C20"],
 "compressor/elf.rs": ["C06", "C20"], "compressor/general_xor.rs": ["C03", "C20", "C12"], "compressor/run_length.rs": ["C07", "C20"],
 "compressor/uncompressed.rs": ["C08", "C20", "C11"], "compressor/zstd.rs": ["C08", "C20", "C11"], "compressor/gzip.rs": ["C08", "C20", "C11"],
 "compressor/snappy.rs": ["C08", "C20", "C11"], "compressor/ffi_alp.rs": ["C08", "C20", "C11"], "compressor/sprintz.rs": ["C09", "C20", "C11"], "compressor/buff.rs": ["C10", "C20", "C11"],
 "compressor.rs": ["C11", "C20", "C12"],
 "decoder/chunk_reader/gorilla.rs": ["C03"], "decoder/chunk_reader/chimp.rs": ["C04"], "decoder/chunk_reader/chimp_n.rs": ["C05"], "decoder/chunk_reader/elf.rs": ["C06"],
 "decoder/chunk_reader/general_xor.rs": ["C03", "C22"], "decoder/chunk_reader/run_length.rs": ["C07", "C15", "C17", "C19", "C22"],
 "decoder/chunk_reader/uncompressed.rs": ["C08", "C22"], "decoder/chunk_reader/zstd.rs": ["C08", "C22"], "decoder/chunk_reader/gzip.rs": ["C08", "C22"],
 "decoder/chunk_reader/snappy.rs": ["C08", "C22"], "decoder/chunk_reader/ffi_alp.rs": ["C08", "C22"],
 "decoder/chunk_reader/sprintz.rs": ["C09", "C16", "C18", "C22"],
 "decoder/chunk_reader/buff.rs": ["C10", "C16", "C18", "C22"], "decoder/chunk_reader/buff/decode.rs": ["C10"], "decoder/chunk_reader/buff/controlled_precision.rs": ["C10"],
 "decoder/chunk_reader/buff/filter.rs": ["C16"], "decoder/chunk_reader/buff/filter_cmp.rs": ["C16"], "decoder/chunk_reader/buff/filter_eq.rs": ["C16"],
 "decoder/chunk_reader/buff/min_max.rs": ["C18"], "decoder/chunk_reader/buff/sum.rs": ["C18"],
 "decoder/chunk_reader.rs": ["C22", "C14", "C24", "C17"], "decoder/query.rs": ["C15", "C17", "C14", "C19", "C24"], "decoder/expr.rs": ["C25"],
 "decoder.rs": ["C12", "C26", "C11", "C14"], "api/decoder.rs": ["C14", "C15", "C17", "C19", "C23", "C24", "C25", "C11"], "api/encoder.rs": ["C12", "C13", "C11"],
 "encoder.rs": ["C12", "C13", "C11"], "format.rs": ["C11"], "format/native.rs": ["C11"], "format/serialize.rs": ["C11"], "format/deserialize.rs": ["C11", "C26"], "format/run_length.rs": ["C07"], "time.rs": ["C11"],
}
OPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" && ", " || "), (" || ", " && "),
       (" * ", " + "), (" / ", " * "), (" % ", " / "), (" & ", " | "), (" | ", " & "), (" ^ ", " | "), ("<<", ">>"), (">>", "<<"), ("true", "false"), ("false", "true"), ("min(", "max("), ("max(", "min("), ("!self", "self"), ("is_some", "is_none"), ("is_none", "is_some"), ("..=", ".."), ("+= ", "-= "), ("-= ", "+= ")]
def lines_of(p):
    t = open(p).read()
    i = t.find("#[cfg(test)]")
    return t, (t[:i] if i >= 0 else t).split("\n")
def mutants(f):
    t, L = lines_of(f"/repo/ebi/src/{f}")
    out = []
    for n, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "*", "debug_assert", "pub struct", "impl", "where")):
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(re.escape(a), code):
                if a in ("<<", ">>") and (code[m.end():m.end()+1] == "=" or "<" in code.replace("<<", "")):
                    pass
                out.append((n, l, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r"(?<![\w.\[u])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            out.append((n, l, l[:m.start()] + str(v + 1) + l[m.end():]))
            if v > 0:
                out.append((n, l, l[:m.start()] + str(v - 1) + l[m.end():]))
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".", "break", "pub ", "const", "type", "fn", "]")) and s.count("(") == s.count(")"):
            out.append((n, l, "//" + l))
        if s in ("break;", "continue;"):
            out.append((n, l, "//" + l))
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", l)
        if m:
            out.append((n, l, f"{m[1]}!({m[2]}){m[3]}"))
    seen, res = set(), []
    for x in out:
        if x[2] not in seen and x[1] != x[2]:
            seen.add(x[2]); res.append(x)
    return res
def sh(c, t=900, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = "timeout"
        return R
def worker(i, q, done):
    d = f"{M}/w{i}"
    sh(f"mkdir -p {d}; rm -rf {d}/repo {d}/verif; cp -a /repo {d}/repo; cp -a /verif {d}/verif")
    while True:
        try:
            f, n, a, b = q.get_nowait()
        except queue.Empty:
            return
        p = f"{d}/repo/ebi/src/{f}"
        t = open(p).read()
        L = t.split("\n")
        assert L[n] == a, (f, n)
        L[n] = b
        open(p, "w").write("\n".join(L))
        r = dict(file=f, line=n + 1, old=a.strip(), new=b.strip(), result="SURVIVED", by={})
        for c in PROPS[f]:
            x = sh(f"unshare -m bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 600 python3 check.py {c} quick'")
            r["by"][c] = x.returncode
            if x.returncode == 1 and "VIOLATION" in x.stdout:
                r["result"] = "caught"
                break
            if x.returncode not in (0, 1):
                r["result"] = "NOANSWER"
                r["out"] = x.stdout[-600:]
                if "error" in x.stdout and ("could not compile" in x.stdout or "aborting due" in x.stdout or "error[E" in x.stdout):
                    r["result"] = "nocompile"
                    break
        open(p, "w").write(t)
        with lock:
            open(f"{M}/results.jsonl", "a").write(json.dumps(r) + "\n")
            print(r["result"], f, n + 1, r["old"], "=>", r["new"], r["by"], flush=True)
lock = threading.Lock()
if __name__ == "__main__":
    os.makedirs(M, exist_ok=True)
    nw, per = int(sys.argv[1]), int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else "."
    done = set()
    if os.path.exists(f"{M}/results.jsonl"):
        for l in open(f"{M}/results.jsonl"):
            x = json.loads(l); done.add((x["file"], x["old"], x["new"]))
    rnd = random.Random(int(os.environ.get("SEED", "7")))
    todo = []
    for f in PROPS:
        if not re.search(pat, f): continue
        m = [x for x in mutants(f) if (f, x[1].strip(), x[2].strip()) not in done]
        rnd.shuffle(m)
        todo += [(f, *x) for x in m[:per]]
    rnd.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for x in todo: q.put(x)
    ts = [threading.Thread(target=worker, args=(i, q, done)) for i in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
