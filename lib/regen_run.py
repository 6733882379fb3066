"""Bounded stand-in of G01: random histories of generations and edits, run with the real CLI in a scratch folder.
The oracle is a list of the folders and files that belong to the generator, and a generation of the same sources into
an empty project; nothing of it comes from the proof."""
import concurrent.futures, json, os, random, re, shutil, tempfile, time
import vk

try:
    import tomllib
except ImportError:
    tomllib = None

SCH = os.path.join(vk.ROOT, "schemas")
REQ = ["""Ping !Fault {
   (Pong);
}""", """Chat.Message !Chat.Denied {
   (Accept > Chat.Accepted) > News;
                            > Alarm;
   (Deny > Chat.Denied);
   (Quiet > Pong) > Chat.Deep.Note;
                  > News?;
}""", """Bell !Fault {
   (Ring > Pong) > News;
                 > Alarm?;
}""", """Chat.Deep.Ask !Fault {
   (Full > Chat.Deep.Answer);
   (Empty > Pong);
}"""]
EV = ["@Alert {\n   > News?;\n   > Alarm;\n}", "@Kick {\n   > News;\n}", "@connected {\n   > Alarm?;\n}", "@disconnected {\n   > News;\n   > Alarm?;\n}"]
BE = ["    > Beat;\n", "    > Chat.Deep.Note;\n"]


def workflow(r, p, c):
    t = "&config {\n   SelfKey: Auth.Me;\n   AssignedKey: Auth.Role;\n   Producer: %s;\n   Consumer: %s;\n}\n" % (p, c)
    rq = [x for x in REQ if r.random() < 0.75] or [REQ[0]]
    # an answer with a broadcast or without
    rq = [x.replace(") > News;\n                 > Alarm?;", ");") if r.random() < 0.3 else x for x in rq]
    ev = [x for x in EV if r.random() < 0.75] or [EV[0]]
    be = [x for x in BE if r.random() < 0.8] or [BE[0]]
    return t + "\n".join(rq + ev) + "\n@beacons {\n" + "".join(be) + "}\n"


def owned(lang, side, rel):
    """does this file below the folder of a producer or consumer belong to the generator?"""
    d = rel.split("/")
    if lang == "rust":
        if d[0] == "implementation" and len(d) > 1 or rel == "mod.rs":
            return True
        return len(d) == 2 and d[1] == "mod.rs" and d[0] in (("responses", "events", "beacons") if side == "p" else ("broadcasts", "events"))
    if side == "p":
        return d[0] == "implementation" and len(d) > 1 or rel == "index.ts"
    return len(d) > 1 and d[0] in ("beacons", "interfaces", "requests", "protocol") or rel in ("index.ts", "options.ts")


def tree(d):
    o = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            o[os.path.relpath(p, d)] = open(p, "rb").read()
    return o


def stamp(d):
    o = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            st = os.stat(p)
            o[os.path.relpath(p, d)] = (st.st_ino, st.st_mtime_ns)
    return o


CARGO = ['[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n',
         '[package]\nname = "%s"\nversion = "0.3.1"\nedition = "2018"\nauthors = ["A <a@b>"]\n\n[features]\ndefault = ["x"]\nx = []\n\n[dependencies]\nserde = "1.0"\nrand = { version = "0.8", default-features = false }\n\n[dev-dependencies]\nquickcheck = "1"\n\n[profile.release]\nlto = true\n',
         '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\nlog = "0.3"\n[target.\'cfg(unix)\'.dependencies]\nlibc = "0.2"\n']
PKG = ['{"name":"%s","version":"1.0.0"}', '{"name":"%s","version":"1.0.0","scripts":{"build":"tsc -p .","test":"x && y"},"dependencies":{"left-pad":"1.0.0","clibri":"0.0.1"},"devDependencies":{"typescript":"^4"},"files":["a","b"],"private":true,"n":[1,2.5,null]}']


def manifest_problem(name, a, b, f):
    """only dependencies may come or change, and those are the ones the generator asks for in an empty project"""
    if a == b:
        return None
    try:
        if name == "Cargo.toml":
            a, b, f = (tomllib.loads(x.decode()) for x in (a, b, f))
        else:
            a, b, f = (json.loads(x) for x in (a, b, f))
    except Exception as e:
        return "it can no longer be read: %s" % e
    da, db, df = (x.pop("dependencies", {}) for x in (a, b, f))
    if a != b:
        return "something other than the dependencies changed: %r is now %r" % (a, b)
    for k in da:
        if db.get(k) != da[k] and db.get(k) != df.get(k):
            return "the dependency %s was %r and is %r" % (k, da[k], db.get(k))
        if k not in df and db.get(k) != da[k]:
            return "the dependency %s of the user was %r and is %r" % (k, da[k], db.get(k))
    for k in db:
        if k not in da and db[k] != df.get(k):
            return "the dependency %s = %r comes from nowhere" % (k, db[k])
    return None


class Hist:
    def __init__(self, cli, d, seed):
        self.cli, self.d, self.r, self.seed, self.log = cli, d, random.Random(seed), seed, []
        self.fails, self.runs, self.checked = [], 0, 0

    def cmd(self, d, args, wf, prot):
        open(os.path.join(d, "flow.prot"), "w").write(prot)
        open(os.path.join(d, "flow.workflow"), "w").write(wf)
        rc, o, e = vk.sh([self.cli] + args, cwd=d, timeout=60)
        self.runs += 1
        return rc

    def project(self, d, kind, manifests):
        for s in "pc":
            os.makedirs(os.path.join(d, s, "src", "gen"))
            if manifests:
                open(os.path.join(d, s, "Cargo.toml"), "w").write(CARGO[kind % len(CARGO)] % s)
                open(os.path.join(d, s, "package.json"), "w").write(PKG[kind % len(PKG)] % s)

    def fail(self, m):
        self.fails.append("history %d: %s; %s" % (self.seed, "; ".join(self.log)[-1500:], m))

    def fresh(self, args, wf, prot):
        d = os.path.join(self.d, "fresh")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        self.project(d, 0, True)
        rc = self.cmd(d, args, wf, prot)
        return rc, tree(d)

    def edit(self, d, sides, lang):
        r = self.r
        for s in sides:
            base = os.path.join(d, s, "src/gen")
            t = sorted(k for k in tree(base))
            for k in t:
                p = os.path.join(base, k)
                if r.random() < 0.35:
                    n = open(p, "rb").read()
                    how = r.randrange(6)
                    n = [b"// mine " + bytes(str(r.random()), "ascii"), b"", n + b"\n// more\n", n[: r.randrange(len(n) + 1)], n.replace(b"\n", b"\r\n"), bytes(r.randrange(256) for _ in range(r.randrange(40)))][how]
                    open(p, "wb").write(n)
                elif r.random() < 0.04:
                    os.remove(p)
            for _ in range(r.randrange(3)):
                ext = ".rs" if lang[s] == "rust" else ".ts"
                k = r.choice(["helper" + ext, "events/util" + ext, "responses/deep/more" + ext, "implementation.bak/mod.rs", "events/mod.rs.orig", "beacons2/x" + ext, "main" + ext, "context_more" + ext, "broadcasts/sub/mod.rs", "README.md", "lib.rs", "error" + ext])
                p = os.path.join(base, k)
                if not os.path.exists(p) and not os.path.isfile(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w").write("user %s\n" % r.random())
            for k in ("src/main.rs", "src/lib.rs", "README.md", "src/index.ts"):
                if r.random() < 0.2:
                    open(os.path.join(d, s, k), "w").write("outer %s\n" % r.random())

    def step(self, d, lang, prot0):
        r = self.r
        sides = r.choice(["pc", "pc", "pc", "p", "c"])
        if r.random() < 0.06:
            s = r.choice("pc")
            lang[s] = "typescript" if lang[s] == "rust" else "rust"
        wf, prot = workflow(r, lang["p"], lang["c"]), prot0
        if r.random() < 0.3:
            prot = prot.replace("struct Beat {\n    u32 n;", "struct Beat {\n    u32 n;\n    str more?;")
        broken = None
        x = r.random()
        if x < 0.06:
            wf, broken = wf.replace("(Pong)", "(Nowhere)"), "a message that is not there"
        elif x < 0.10:
            wf, broken = wf[: r.randrange(200, len(wf))], "a workflow cut off"
        elif x < 0.13:
            prot, broken = prot[: r.randrange(200, len(prot))], "a protocol cut off"
        out = [("-pd", "p/src/gen")] if "p" in sides else []
        out += [("-cd", "c/src/gen")] if "c" in sides else []
        single = []
        if r.random() < 0.35:
            for k, n in (("-rs", "out.rs"), ("-ts", "out.ts"), ("-d", "out.puml")):
                if r.random() < 0.6:
                    single.append((k, n))
        r.shuffle(out)
        full = ["-s", "flow.prot", "-wf", "flow.workflow"]
        allo = out + single
        r.shuffle(allo)
        for k, n in allo:
            full += [k, n]
        over = bool(single) and r.random() < 0.5
        if over:
            full.insert(r.choice([0, len(full)]), r.choice(["-o", "--overwrite", "--ow"]))
        blocked = None
        if r.random() < 0.08:
            # something in the way of a file of the generator
            c = sorted(k for s in sides for k in (s + "/src/gen/" + q for q in tree(os.path.join(d, s, "src/gen")) if owned(lang[s], s, q)))
            if c:
                blocked = r.choice(c)
                os.remove(os.path.join(d, blocked))
                os.makedirs(os.path.join(d, blocked))
        gone = None
        if r.random() < 0.05:
            s = r.choice(sides)
            gone = os.path.join(d, s, "Cargo.toml" if lang[s] == "rust" else "package.json")
            if os.path.exists(gone):
                keep = open(gone).read()
                os.remove(gone)
            else:
                gone = None
        for k, n in single:
            if r.random() < 0.6:
                open(os.path.join(d, n), "wb").write(bytes(r.randrange(32, 127) for _ in range(r.choice([0, 10, 200000]))))
            elif os.path.exists(os.path.join(d, n)) and r.random() < 0.7:
                os.remove(os.path.join(d, n))
        self.log.append("%s (%s)%s" % (" ".join(full), "/".join(lang[s] for s in "pc"), "".join([" with " + broken if broken else "", " with a folder at " + blocked if blocked else "", " without manifest" if gone else ""])))
        frc, want = self.fresh(full, wf, prot)
        open(os.path.join(d, "flow.prot"), "w").write(prot)
        open(os.path.join(d, "flow.workflow"), "w").write(wf)
        before = tree(d)
        rc = self.cmd(d, full, wf, prot)
        after = tree(d)
        names = {n for _, n in single}
        guard = [n for n in names if n in before and not over]
        clean = frc == 0 and not broken and not blocked and not gone and not guard
        if clean and rc != 0:
            self.fail("the generation of an empty project succeeds, this one does not")

        def own(k):
            m = re.match(r"([pc])/src/gen/(.*)", k)
            return bool(m) and m.group(1) in sides and owned(lang[m.group(1)], m.group(1), m.group(2))
        for k, x in before.items():
            self.checked += 1
            if k in names:
                if k in guard and after.get(k) != x:
                    return self.fail("%s existed, overwriting was not asked for, and it changed" % k)
                continue
            if own(k):
                continue
            if k in ("p/Cargo.toml", "c/Cargo.toml", "p/package.json", "c/package.json"):
                used = k[0] in sides and (lang[k[0]] == "rust") == k.endswith(".toml")
                m = "it is gone" if k not in after else (manifest_problem(os.path.basename(k), x, after[k], want.get(k, b"")) if used and frc == 0 else (None if after[k] == x else (manifest_problem(os.path.basename(k), x, after[k], after[k]) if used else "it changed")))
                if m:
                    return self.fail("%s: %s" % (k, m))
                continue
            if k not in after:
                return self.fail("the file %s of the user is gone" % k)
            if after[k] != x:
                return self.fail("the file %s of the user changed from %r to %r" % (k, x[:120], after[k][:120]))
        if clean:
            for k, x in want.items():
                if k.endswith("Cargo.toml") or k.endswith("package.json"):
                    continue
                self.checked += 1
                if own(k) or k in names or k not in before:
                    if after.get(k) != x:
                        return self.fail("%s is not what a generation into an empty project gives: %r instead of %r" % (k, (after.get(k) or b"(missing)")[:200], x[:200]))
            for k in after:
                if k not in before and k not in want:
                    return self.fail("the generation wrote %s, which a generation into an empty project does not write" % k)
        if blocked and os.path.isdir(os.path.join(d, blocked)):
            shutil.rmtree(os.path.join(d, blocked))
        if gone:
            open(gone, "w").write(keep)
        self.edit(d, "pc", lang)

    def run(self):
        d = os.path.join(self.d, "proj")
        os.makedirs(d)
        r = self.r
        lang = {s: r.choice(["rust", "typescript"]) for s in "pc"}
        self.project(d, r.randrange(6), True)
        prot = open(os.path.join(SCH, "flow.prot")).read()
        for _ in range(r.randrange(2, 6)):
            self.step(d, lang, prot)
            if self.fails:
                break
        return self


def one(cli, top, seed):
    d = os.path.join(top, str(seed))
    os.makedirs(d)
    try:
        return Hist(cli, d, seed).run()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(secs):
    cli = vk.build_cli()
    top = tempfile.mkdtemp(prefix="g01-", dir=vk.workdir("G01-run"))
    end = time.time() + secs
    res = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "cmd": "python3 lib/regen_run.py SEED (VERIF_SEED*1000000 + number of the history)",
           "note": "bounded: random histories of generations and edits of the user, run with the real CLI and compared with what was there and with a generation into an empty project"}
    try:
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            n = 0
            while time.time() < end and len(res["failures"]) < 3:
                for h in ex.map(lambda i: one(cli, top, vk.SEED * 1000000 + i), range(n, n + 24)):
                    res["evaluations"] += h.checked
                    res["distinct"] += h.runs
                    res["failures"] += h.fails[:1]
                    if len(res["samples"]) < 3:
                        res["samples"].append("; ".join(h.log))
                n += 24
    finally:
        shutil.rmtree(top, ignore_errors=True)
    res["failures"] = res["failures"][:3]
    res["note"] += "; %d histories, %d generations, %d files compared" % (n, res["distinct"], res["evaluations"])
    return res


if __name__ == "__main__":
    import sys
    top = tempfile.mkdtemp(prefix="g01-")
    try:
        h = one(vk.build_cli(), top, int(sys.argv[1]))
        print("; ".join(h.log), "\n", h.fails)
    finally:
        shutil.rmtree(top, ignore_errors=True)
