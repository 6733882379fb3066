"""The checks of the generated codec (C01..C06): contracts on the code the CLI generates from the templates of
/repo's current tree, discharged by Verus, with a differential run of the same code as bounded stand-in."""
import glob, json, os, re, shutil
import vk, codec, prot, glue
from gen_schema import random_schema, many_schema

H = os.path.join(vk.ROOT, "tools/codec_harness")

PROBES = """
pub mod vx_probes { use super::*; use vstd::prelude::*; verus! {
pub proof fn vx_probe_false() ensures false { broadcast use {vx_broadcasts}; }
pub proof fn vx_probe_packet(b: Seq<u8>, id: u32, seq: u32, p: Seq<u8>) requires vx_is_packet(b, id, 0, seq, p) ensures false { broadcast use {vx_broadcasts}; }
} }
"""


def generate(cli, name, text):
    d = vk.workdir(name)
    p, rs = os.path.join(d, "p.prot"), os.path.join(d, "gen.rs")
    open(p, "w").write(text)
    if os.path.exists(rs):
        os.remove(rs)
    rc, o, e = vk.sh([cli, "--src", p, "-rs", rs, "-o", "--em"], cwd=d, timeout=60)
    if not os.path.exists(rs):
        return None, "the CLI generates nothing from this protocol (exit %d): %s" % (rc, (o + e)[-300:])
    return rs, None


def unit(name, text, rs, lemmas, modules=None):
    P = prot.parse(text)
    R = codec.rules(P, rs, lemmas=lemmas)
    R["footer"] = R["footer"].replace("\n} // verus!", PROBES_IN + "\n} // verus!", 1)
    return vk.Unit(name, R, modules=modules)


PROBES_IN = """
pub proof fn vx_probe_false() ensures false { broadcast use {vx_broadcasts}; }
pub proof fn vx_probe_packet(b: Seq<u8>, id: u32, seq: u32, p: Seq<u8>) requires vx_is_packet(b, id, 0, seq, p) ensures false { broadcast use {vx_broadcasts}; }
"""


def harness_deps():
    rc, o, e = vk.sh("cargo build --offline", cwd=H, env=vk.cargo_env("hx"))
    if rc:
        vk.die("harness dependencies do not build: " + e[-500:])
    return glob.glob(os.path.join(vk.BUILD, "hx/debug/deps/libbytes*.rlib"))[0]


def compile_harness(name, text, rs):
    d = vk.workdir(name + "-hx")
    shutil.copy(rs, os.path.join(d, "gen.rs"))
    shutil.copy(os.path.join(H, "harness.rs"), os.path.join(d, "main.rs"))
    open(os.path.join(d, "glue.rs"), "w").write(glue.glue(prot.parse(text)))
    lib = harness_deps()
    rc, o, e = vk.sh(["rustc", "--edition", "2018", "-C", "opt-level=1", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "codegen-units=8", "--cap-lints", "allow",
                      "-L", os.path.dirname(lib), "--extern", "bytes=" + lib, "main.rs", "-o", "hx"], cwd=d, env=vk.cargo_env("hx"), timeout=400)
    if rc:
        return None, e
    return os.path.join(d, "hx"), None


def run_harness(hx, mode, seed, ms):
    cmd = [hx, mode, str(seed), str(ms)]
    full = "ulimit -v 12000000; exec " + " ".join(cmd)
    rc, o, e = vk.sh(["bash", "-c", full], timeout=ms / 1000 + 120)
    try:
        r = json.loads(o.strip().split("\n")[-1])
    except Exception:
        env = dict(os.environ, HX_TRACE="1", HX_LOUD="1")
        rc2, o2, e2 = vk.sh(["bash", "-c", full], timeout=ms / 1000 + 120, env=env)
        r = {"evaluations": 0, "distinct": 0, "samples": [], "failures": ["the process ended with status %d during this run: %s; %s" % (rc, " ".join(cmd), (e2 or e)[-400:])]}
    r["cmd"] = " ".join(cmd)
    return r


# which functions and lemmas of the woven file carry which property
ENC = re.compile(r"(StructEncode|EnumEncode|EncodeEnum|Encode)\b")
DEC = re.compile(r"(StructDecode|EnumDecode|DecodeEnum|Decode)\b(?!Buffer)")


def is_const(k): return bool(re.search(r"\bconst ", k))
def is_enc(k): return is_const(k) or (bool(ENC.search(k)) and not re.search(r"Decode", k)) or bool(re.search(r"fn get_(value_buffer|empty_buffer_val)$", k))
def is_dec(k): return is_const(k) or bool(re.search(r"(StructDecode|EnumDecode|DecodeEnum|Decode)\b", k))
def is_pack(k): return is_const(k) or bool(re.search(r"Packing(Struct|Enum)\b|fn pack$|fn pack_buffer$|PackingMiddleware.*fn encode$|(StructEncode|EnumEncode)\b.*fn get_(id|signature)$|fn hash$", k))
def is_read(k): return is_const(k) or bool(re.search(r"\bBuffer\b|DecodeBuffer|fn has_buffer_|fn get_(header|body)_from_buffer$|PackingMiddleware.*fn decode$", k))
def is_store(k): return "Storage" in k


SEL = {
    "C01": (lambda k: is_enc(k) or is_dec(k) or is_store(k), lambda n: True),
    "C02": (lambda k: is_enc(k) or is_pack(k), lambda n: False),
    "C03": (lambda k: is_dec(k) or is_store(k) or is_read(k), lambda n: False),
    "C04": (lambda k: is_store(k) or "StructDecode" in k, lambda n: re.search(r"vx_store|vx_map|vx_sdec", n)),
    "C05": (lambda k: is_read(k), lambda n: re.search(r"vx_run|vx_chunks|vx_preq|vx_stream", n)),
    "C06": (lambda k: is_pack(k) or is_read(k), lambda n: re.search(r"vx_run|vx_stream|vx_unknown|vx_msg|vx_dispof", n)),
}

ASSUME = [
    "Contracts assumed of std and of the bytes crate: the shims of spec/codec_prelude.rs (Cursor and Buf reads, Vec::drain, slices to vectors, UTF-8 conversions, byte order conversions, HashMap through vstd).",
    "No vector or slice is longer than isize::MAX bytes (guaranteed by the Rust allocator).",
    "Clone of generated types yields an equal value (derived code, not checked).",
    "format! and panic messages are not interpreted; the text of error messages is outside the contracts.",
    "Floating point values are compared as bit patterns.",
    "The timestamp of a packed header is arbitrary in the proof; the concrete run reads it back.",
    "The proof is per generated file: it covers all values of the types of the schema used, and the templates for all kinds of field through the reference schema, which uses every kind; other schemas are covered by the bounded stand-in.",
]


def check(pid):
    v = vk.Verdict(pid)
    v.assumptions = ASSUME
    wv = vk.Task(vk.build_weave_once)
    cli = vk.build_cli()
    wv.get()
    ref = open(os.path.join(vk.ROOT, "schemas/ref.prot")).read()
    schemas = [("ref", ref), ("many", many_schema())]
    for k in range(6 if vk.THOROUGH else 2):
        schemas.append(("rand%d" % k, random_schema(vk.SEED * 1000 + k, 16 if vk.THOROUGH else 10)))
    proofs = ["ref"] + (["rand0", "rand1", "rand2"] if vk.THOROUGH else [])
    harness_deps()
    gens, broken = {}, []
    for n, t in schemas:
        rs, err = generate(cli, pid + "-" + n, t)
        if rs is None:
            broken.append((n, err))
        else:
            gens[n] = (t, rs)
    def prove():
        us = []
        for n in proofs:
            if n in gens:
                u = unit("%s-%s" % (pid, n), gens[n][0], gens[n][1], True)
                u.threads = 6 if not vk.THOROUGH else 8
                us.append(u.run())
        return us
    def conc(n):
        t, rs = gens[n]
        hx, err = compile_harness(pid + "-" + n, t, rs)
        if hx is None:
            return {"evaluations": 1, "distinct": 1, "samples": [], "failures": ["the code generated from this protocol does not compile:\n%s\n%s" % (t[:1500], err[:1500])], "cmd": "rustc"}, None
        r = run_harness(hx, pid, vk.SEED, (60000 if vk.THOROUGH else 9000))
        known = None
        if pid == "C01" and n == "ref":
            rc, o, e = vk.sh([hx, "known", "1", "1"], timeout=60)
            known = o.split()
        return r, known
    pt = vk.Task(prove)
    cs = {}
    def conc_all():
        for grp in (["ref", "many"], [n for n, _ in schemas if n.startswith("rand")]):
            ts = [(n, vk.Task(conc, n)) for n in grp if n in gens]
            for n, t in ts:
                cs[n] = t.get()
    conc_all()
    for n, err in broken:
        cs[n] = ({"evaluations": 1, "distinct": 1, "samples": [], "failures": [err + "\n" + dict(schemas)[n][:1500]], "cmd": "clibri --src p.prot -rs gen.rs"}, None)
    for n, (r, known) in cs.items():
        r["note"] = "bounded: random values of schema %s compared with an independent reference codec" % n
        v.add_conc("schema " + n, r)
        if known:
            for line in vk.known_findings(pid):
                fields = re.findall(r"\[(\S+)\]", line)
                if fields and all(f in known for f in fields):
                    v.known_seen.append(line)
    for u in pt.get():
        v.add_unit(u, *SEL[pid])
    v.finish()
