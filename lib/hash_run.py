"""Bounded stand-in of H01: the constants in what the real CLI generates, compared with the SHA-256 of the files it read
(computed by Python's hashlib)."""
import concurrent.futures, hashlib, os, random, re, shutil, sys, tempfile, time
import vk
from regen_run import SCH, CARGO, PKG, workflow, tree

HEX = re.compile(rb"(?<![0-9A-Za-z_])[0-9A-Fa-f]{64}(?![0-9A-Za-z_])")
SIZES = [1023, 1024, 1025, 1536, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 8191, 8192, 8193, 9216, 9217, 16384, 16385, 40000, 65536, 65537]


def stretch(r, t, lead="", words=False):
    """the same declarations in another layout"""
    how = r.randrange(7)
    if how == 0:
        return t
    if how == 1:
        t = t.replace("\n", "\r\n")
    if how == 2:
        t = t + r.choice(["\n", " ", "\n\n", "\t\n ", "   "])
    if how == 3:
        t = r.choice(["\n", " ", "\t", "\n \n"]) + t
    if how == 4:
        t = t.rstrip()
    if words and how == 5:
        t = "# %s %s\n" % (r.choice(["note", "заметка", "ünï", "\u2603\U0001f600"]), r.random()) + t
    n = r.choice([s for s in SIZES if s >= len(t.encode())])
    if r.random() < 0.6 and n > len(t.encode()):
        ls = [i for i, c in enumerate(t) if c == "\n" and i > 0 and t[i - 1] in ";{}\n"] or [len(t)]
        i = r.choice(ls + [len(t)] * 3)
        fill = r.choice([" ", " ", "\n", "\t", "\r", "\r\n", "\n\n   ", " \n\t"])
        t = t[:i] + "".join(r.choice(fill) if r.random() < 0.1 else fill[k % len(fill)] for k in range(n - len(t.encode()))) + t[i:]
    return t


def sha(b):
    return hashlib.sha256(b).hexdigest().upper().encode()


class One:
    def __init__(self, cli, d, seed):
        self.cli, self.d, self.seed, self.fails, self.checked, self.files = cli, d, seed, [], 0, {}
        self.r = random.Random(seed)
        self.says = ""

    def fail(self, m):
        self.fails.append("files %d (%s): %s" % (self.seed, self.says, m))

    def look(self, top, rel, b, hp, hw, need_w):
        """every hash in a file is that of the file it is named after"""
        seen = set()
        for m in HEX.finditer(b):
            if m.group(0) in (hp, hw):
                seen.add(m.group(0))
            before = b[max(0, m.start() - 160): m.start()].decode("utf8", "replace").lower()
            p, w = before.rfind("protocol"), before.rfind("workflow")
            want = "workflow" if w > p else "protocol"
            self.checked += 1
            if m.group(0) != (hw if want == "workflow" else hp):
                self.fail("%s/%s: the hash of the %s is %s, the file has %s" % (top, rel, want, m.group(0).decode(), (hw if want == "workflow" else hp).decode()))
        for k in (b"[[protocol_hash]]", b"[[workflow_hash]]"):
            if k in b:
                self.fail("%s/%s: %s is left in the code" % (top, rel, k.decode()))
        return seen

    def run(self):
        r, d = self.r, self.d
        P, C = r.choice(["rust", "typescript"]), r.choice(["rust", "typescript"])
        base = open(os.path.join(SCH, "flow.prot")).read()
        small = r.random() < 0.4
        if small:
            base = "struct A {\n    u8 f;\n}\n" if r.random() < 0.7 else "group G {\n    struct A {\n        str f?;\n    }\n}\n"
        prot = stretch(r, base).encode()
        wf = stretch(r, workflow(r, P, C), words=True).encode()
        # the files lie among others of their kind, under any name
        folder = r.choice([".", ".", "src", "defs.d"])
        os.makedirs(os.path.join(d, folder), exist_ok=True)
        names = ["main", "index", "default", "flow", "app", "config", "protocol", "workflow", "common", "a", "a.v2", "mod", "base"]
        np, nw = os.path.join(folder, r.choice(names)), os.path.join(folder, r.choice(names))
        if r.random() < 0.5:
            for n in names:
                open(os.path.join(d, folder, n + ".prot"), "w").write("struct Other%s {\n    u8 f;\n}\n" % n[0])
                open(os.path.join(d, folder, n + ".workflow"), "w").write(workflow(r, P, C) + "\n# other\n")
        open(os.path.join(d, np + ".prot"), "wb").write(prot)
        open(os.path.join(d, nw + ".workflow"), "wb").write(wf)
        hp, hw = sha(prot), sha(wf)
        self.says = "%s.prot of %d bytes, %s.workflow of %d bytes, %s" % (np, len(prot), nw, len(wf), "alone" if small else P + " producer, " + C + " consumer")
        args = [self.cli, "-s", np + ".prot"]
        if small:
            args += ["-rs", "out.rs", "-ts", "out.ts", "-o"]
        else:
            for s in "pc":
                os.makedirs(os.path.join(d, s, "src", "gen"))
                open(os.path.join(d, s, "Cargo.toml"), "w").write(CARGO[0] % s)
                open(os.path.join(d, s, "package.json"), "w").write(PKG[0] % s)
            args += ["-wf", nw + ".workflow", "-pd", "p/src/gen", "-cd", "c/src/gen"]
        rc, o, e = vk.sh(args, cwd=d, timeout=60)
        if small:
            for f in ("out.rs", "out.ts"):
                p = os.path.join(d, f)
                if not os.path.exists(p):
                    continue
                b = open(p, "rb").read()
                if hp not in self.look(".", f, b, hp, hw, False):
                    self.fail("%s does not carry the hash of the protocol %s" % (f, hp.decode()))
            return self
        for s in "pc":
            seen = set()
            t = tree(os.path.join(d, s, "src/gen"))
            for k, b in t.items():
                seen |= self.look(s, k, b, hp, hw, True)
            if t and "[ERR]" not in o and rc == 0 and (hp not in seen or hw not in seen):
                self.fail("the generated %s does not carry the hash of the %s" % ("producer" if s == "p" else "consumer", "protocol" if hp not in seen else "workflow"))
        return self


def one(cli, top, seed):
    d = os.path.join(top, str(seed))
    os.makedirs(d)
    try:
        return One(cli, d, seed).run()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(secs):
    cli = vk.build_cli()
    top = tempfile.mkdtemp(prefix="h01-", dir=vk.workdir("H01-run"))
    end = time.time() + secs
    res = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "cmd": "python3 lib/hash_run.py SEED (VERIF_SEED*1000000 + number of the case)",
           "note": "bounded: random protocol and workflow files in many layouts and sizes, given to the real CLI; every hash in the generated code is compared with the digest of the file"}
    try:
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            n = 0
            while time.time() < end and len(res["failures"]) < 3:
                for h in ex.map(lambda i: one(cli, top, vk.SEED * 1000000 + i), range(n, n + 24)):
                    res["evaluations"] += h.checked
                    res["distinct"] += 1
                    res["failures"] += h.fails[:1]
                    if len(res["samples"]) < 3:
                        res["samples"].append(h.says)
                n += 24
    finally:
        shutil.rmtree(top, ignore_errors=True)
    res["failures"] = res["failures"][:3]
    res["note"] += "; %d cases, %d hashes compared" % (n, res["evaluations"])
    return res


if __name__ == "__main__":
    top = tempfile.mkdtemp(prefix="h01-")
    try:
        h = one(vk.build_cli(), top, int(sys.argv[1]))
        print(h.says, h.checked, "\n", h.fails)
    finally:
        shutil.rmtree(top, ignore_errors=True)
