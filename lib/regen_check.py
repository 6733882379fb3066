"""The check of G01: contracts on what the generator does to the file system, over a slice of its sources taken on every
run, with random histories of generations by the real CLI as bounded stand-in."""
import json, os, re
import vk, regen, regen_run


def build_slicer():
    rc, o, e = vk.sh("cargo build --release --offline", cwd=os.path.join(vk.ROOT, "tools/fsslice"), env=vk.tool_env("tools"), timeout=600)
    if rc:
        vk.die("the slicer does not build: " + e[-600:])
    return os.path.join(vk.BUILD, "tools/release/fsslice")


class Slice(vk.Unit):
    def __init__(self, name, slicer, probes=False):
        super().__init__(name, {}, threads=4)
        self.slicer = slicer
        self.probes_only = probes
        self.uncontracted = []

    def run(self):
        d = vk.workdir(self.name)
        cp, self.rs, rep = (os.path.join(d, x) for x in ("conf.json", "slice.rs", "report.json"))
        json.dump(regen.conf(self.rs, rep, self.probes_only), open(cp, "w"))
        for x in (self.rs, rep):
            if os.path.exists(x):
                os.remove(x)
        rc, o, e = vk.sh([self.slicer, cp])
        if rc or not os.path.exists(rep):
            self.broken = "the slicer cannot follow the source: " + e[-400:]
            return self
        self.rep = json.load(open(rep))
        src = open(self.rs).read().split("\n")
        info = {f["fn"]: f for f in self.rep["functions"]}
        at = {}
        for i, l in enumerate(src):
            m = re.match(r"pub (?:proof )?fn (\w+)\(", l)
            if m and (m.group(1) in info or m.group(1).startswith("vx_probe__")):
                hi = i
                while hi + 1 < len(src) and not re.match(r"(pub |// |#\[verifier|fn main)", src[hi + 1]):
                    hi += 1
                at[m.group(1)] = (i + 1, hi + 1)
        self.functions = [{"key": n, "line_lo": lo, "line_hi": hi} for n, (lo, hi) in at.items() if n.startswith("vx_probe__") == self.probes_only or not self.probes_only]
        r = self.verify()
        if self.broken:
            return self
        if r != "ok":
            self.broken = "the slice is outside the verifier's subset: " + self.compile_errors[:600]
            return self
        if self.probes_only:
            want = {n for n in at if n.startswith("vx_probe__")}
            got = set(self.failed)
            self.probe_missing = sorted(want - got)
            self.probe_ok = bool(want) and not self.probe_missing
            return self
        self.probe_ok = None
        stub = {n for n, f in info.items() if f["stub"]}
        gone = [n for n in regen.ROOTS if n not in info]
        for n in gone:
            self.undecided[n] = "function is gone"
        for n in list(self.failed):
            f = info.get(n)
            why = None
            if f is None:
                why = "no function of the source"
            elif not f["listed"]:
                why = "code without a contract"
            elif f["odd"]:
                why = "a file name the slice cannot split: " + ", ".join(f["odd"])[:200]
            elif not regen.loss_ok(n, f["losses"]):
                why = "the slice lost a file name: " + "; ".join(f["losses"])[:200]
            else:
                h = [c for c in f["calls"] if not info[c]["listed"]]
                if h:
                    why = "uses code without a contract: " + ", ".join(h)
            if why:
                self.undecided[n] = why
                del self.failed[n]
        self.confirm()
        self.functions = [f for f in self.functions if f["key"] not in stub]
        self.edits = {"functions sliced": len(info), "names of files not followed": sum(len(f["losses"]) for f in info.values())}
        self.drops = ["%s: %s" % (n, "; ".join(f["losses"])) for n, f in info.items() if f["losses"]]
        return self


ASSUME = [
    "The obligations are about a slice of the sources of cli/src taken by tools/fsslice on every run: every call that can reach the file system, in order, with the control flow around it, the paths, and the texts paths are made of. Dropped: the texts written, and conditions and loops over dropped data, which become a free choice (a loop runs any number of times); every `?`, `return` and panic stays as a possible way out. So what is proved holds for every protocol and workflow and for a generation that fails at any place.",
    "A path is the sequence of its components, joining appends; a file name made by `format!` from the name of a message or reference is any text without separators (names in the language have none). Links, case folding file systems, and two names of one file are left out.",
    "`exists()` answering false means there is no such file (a file which cannot be seen for lack of rights counts as absent); no other process writes to the project meanwhile.",
    "Contracts assumed of std::fs, OpenOptions, File and Path: spec/fs_prelude.rs. A call of std::fs that fails has done at most what the same call does when it succeeds, to the same file.",
    "That the flag read by `get_overwrite_flag` is the one of the command line is assumed in the proof and run by the bounded stand-in.",
    "A TypeScript consumer has no files for the user; its folders beacons, interfaces, requests, protocol and its index.ts and options.ts belong to the generator. Of Cargo.toml and package.json the proof says only that no other file of the user is touched; that nothing but dependencies changes in them is checked by the stand-in.",
    "Sources outside the slice which use the words for writing files join the slice with the contract `changes no file`; the static sources copied into projects are text and are left out.",
]


def check(pid):
    v = vk.Verdict(pid)
    v.assumptions = ASSUME
    sl = build_slicer()
    u = vk.Task(Slice(pid + "-slice", sl).run)
    p = vk.Task(Slice(pid + "-probes", sl, True).run)
    v.add_conc("generations", regen_run.run(240 if vk.THOROUGH else 45))
    u, p = u.get(), p.get()
    if not u.broken:
        if p.broken:
            u.probe_ok = False
        else:
            u.probe_ok = p.probe_ok
            if not p.probe_ok:
                vk.log("probes accepted:", ", ".join(p.probe_missing)[:300])
        u.edits["probes refuted"] = len(p.functions) - len(getattr(p, "probe_missing", []))
    v.add_unit(u)
    v.finish()
