"""Driver shared by all checks: builds, weaves contracts into the current source, runs the verifier,
runs the concrete harnesses, decides, and writes evidence and replay files."""
import json, os, re, subprocess, sys, threading, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build") if REPO == "/repo" else "/tmp/verif-build-" + hashlib.md5(REPO.encode()).hexdigest()[:8]
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()

VERIF_FAIL = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|loop ensures not satisfied|"
    r"ensures not satisfied|possible arithmetic|possible division by zero|possible bit shift|decreases not satisfied|"
    r"could not prove termination|unreachable|possible truncation|must be provably|requires not satisfied|cannot show|possible index")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|could not (be )?prove")


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=600, cwd=None, env=None, input=None):
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, cwd=cwd, env=env, input=input, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def cargo_env(target):
    """the toolchain /repo is built with"""
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": "1.75.0", "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "", "CARGO_TERM_COLOR": "never",
              "CARGO_TARGET_DIR": os.path.join(BUILD, target), "HOME": "/root"})
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def tool_env(target):
    e = cargo_env(target)
    e.pop("RUSTUP_TOOLCHAIN")
    return e


def die(msg):
    """the machinery itself cannot run: not an answer"""
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def build_weave():
    rc, o, e = sh("cargo build --release --offline", cwd=os.path.join(ROOT, "tools/weave"), env=tool_env("tools"))
    if rc:
        die("weaver does not build: " + e[-800:])
    return os.path.join(BUILD, "tools/release/weave")


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            for f in sorted(fs):
                p = os.path.join(base, f)
                h.update(p.encode())
                if os.path.isfile(p):
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def build_cli():
    # cargo compares time stamps only: when the sources are not the ones of the last build, build afresh
    stamp, now = os.path.join(BUILD, "cli.stamp"), tree_hash(os.path.join(REPO, "cli"))
    if not os.path.exists(stamp) or open(stamp).read() != now:
        sh("cargo clean --release --offline -p clibri", cwd=os.path.join(REPO, "cli"), env=cargo_env("cli"))
    rc, o, e = sh("cargo build --release --offline", cwd=os.path.join(REPO, "cli"), env=cargo_env("cli"))
    if rc:
        die("the CLI does not build: " + e[-800:])
    open(stamp, "w").write(now)
    return os.path.join(BUILD, "cli/release/clibri")


def workdir(name):
    d = os.path.join(BUILD, "work", name)
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------------------- verifier
class Unit:
    """One woven file and what the verifier says about it."""

    def __init__(self, name, rules, modules=None, rlimit=12, threads=8, timeout=500, expect_fail=()):
        self.name, self.rules, self.modules = name, rules, modules
        self.rlimit, self.threads, self.timeout = rlimit, threads, timeout
        self.failed = {}      # key -> [messages]
        self.undecided = {}   # key -> reason
        self.lemma_failed = {}
        self.broken = None    # reason why nothing can be said
        self.verified = 0
        self.functions = []
        self.trusted = []
        self.probe_ok = None
        self.smt_ms = 0
        self.out = ""
        self.cmd = ""
        self.edits = {}
        self.drops = []

    def weave(self, stub):
        d = workdir(self.name)
        rp, self.rs, rep = (os.path.join(d, x) for x in ("rules.json", "woven.rs", "report.json"))
        R = dict(self.rules)
        R["stub"] = sorted(set(stub) | set(self.rules.get("stub", [])))
        json.dump(R, open(rp, "w"))
        rc, o, e = sh([build_weave_once(), rp, self.rs, rep])
        if rc:
            self.broken = "weaver: " + e[-400:]
            return None
        return json.load(open(rep))

    def run(self):
        stub = set()
        for attempt in range(6):
            rep = self.weave(stub)
            if rep is None:
                return self
            self.functions = rep["functions"]
            keys = {squash(f["key"]): f["key"] for f in self.functions}
            new, loose = set(), []
            for l in rep["lost"]:
                # "key: reason", the key itself may contain colons
                k = next((keys[q] for q in sorted(keys, key=len, reverse=True) if squash(l).startswith(q + ":")), None)
                m = re.search(r"contract for `(.*)` has no target", l)
                if k is not None and k not in stub:
                    new.add(k)
                    self.undecided[k] = "contract does not fit the source: " + l
                elif m:
                    self.undecided[m.group(1)] = "function is gone"
                elif k is None:
                    loose.append(l)
            if loose:
                self.broken = "; ".join(loose[:4])
                return self
            if new - stub:
                stub |= new
                continue
            self.uncontracted = rep["uncontracted"]
            r = self.verify()
            if r == "ok":
                self.excuse()
                self.confirm()
                break
            bad = self.locate_compile_errors()
            if not bad - stub:
                self.broken = "the woven file is outside the verifier's subset: " + self.compile_errors[:600]
                return self
            for k in bad - stub:
                self.undecided[k] = "outside the verifier's subset: " + self.compile_errors[:300]
            stub |= bad
        else:
            self.broken = "too many functions outside the verifier's subset"
            return self
        self.stub = stub
        given = set(self.rules.get("stub", []))  # trusted from the start: not under contract
        self.functions = [f for f in self.functions if f["key"] not in given]
        ed = {}
        for e in rep["edits"]:
            ed[e["kind"]] = ed.get(e["kind"], 0) + 1
        self.edits = ed
        self.drops = sorted({"%s: %s" % (e.get("note", ""), re.sub(r"\s+", " ", e["was"])) for e in rep["edits"] if e["kind"] in ("drop", "rep", "replace", "stub") and e.get("was")})
        return self

    def verify(self, more=()):
        d = os.path.dirname(self.rs)
        args = ["verus", "--crate-type", "lib", os.path.basename(self.rs), "--num-threads", str(self.threads), "--rlimit", str(self.rlimit), "--error-format=json",
                "--output-json", "--time-expanded", "--no-report-long-running", "--multiple-errors", "2"] + list(more)
        for m in self.modules or []:
            args += ["--verify-root"] if m == "" else ["--verify-module", m]
        self.cmd = " ".join(args)
        t = time.time()
        rc, o, e = sh(args, cwd=d, timeout=self.timeout)
        self.wall = time.time() - t
        log("verus %s: %.1f s" % (self.name, self.wall))
        self.out = e
        try:
            j = json.loads(o[o.index("{"):])
        except Exception:
            j = None
        self.diags = []
        for line in e.split("\n"):
            if line.startswith("{"):
                try:
                    x = json.loads(line)
                except Exception:
                    continue
                if x.get("level") == "error":
                    self.diags.append(x)
        if rc == 124:
            self.broken = "the verifier ran out of time"
            return "ok"
        vr = (j or {}).get("verification-results")
        comp = [x for x in self.diags if not (VERIF_FAIL.search(x["message"]) or RLIMIT.search(x["message"]) or x["message"].startswith("aborting"))]
        if vr is None or comp or vr.get("encountered-vir-error"):
            self.compile_errors = "; ".join(x["message"] for x in comp) or e[-600:]
            self.comp = comp
            return "compile"
        self.verified = vr.get("verified", 0)
        self.errors = vr.get("errors", 0)
        tm = j["times-ms"]
        smt = tm.get("smt", {})
        self.smt_ms = smt.get("total", 0) if isinstance(smt, dict) else smt
        self.names = []
        for m in (smt.get("smt-run-module-times") or []) if isinstance(smt, dict) else []:
            for f in m.get("function-breakdown", []):
                self.names.append((f["function"], bool(f.get("success")), f.get("time", 0)))
        src = open(self.rs).read().split("\n")
        self.trusted = trusted_scan(src, self.functions)
        self.failed, self.lemma_failed = {}, {}
        self.hints = []
        self.probe_ok = not any("vx_probe" in l for l in src)
        probes = set()
        for x in self.diags:
            if x["message"].startswith("aborting"):
                continue
            spans = [s for s in x["spans"] if s["is_primary"]] + [s for s in x["spans"] if not s["is_primary"]]
            # a failed postcondition is reported at the clause; the function is at the other span
            lines = [s["line_start"] for s in spans]
            key = None
            cands = []
            for ln in lines:
                f = self.fn_at(ln)
                if f:
                    cands.append(f)
            bodied = [f for f in cands if f["line_hi"] > f["line_lo"] or True]
            pick = None
            # prefer the function whose body is being checked (spans labelled "at the end of the function body" / primary inside a body)
            for s in spans:
                lab = s.get("label") or ""
                f = self.fn_at(s["line_start"])
                if f and ("function body" in lab or "at this exit" in lab or "body" in lab):
                    pick = f
            if pick is None and "postcondition" in x["message"]:
                imp = [f for f in cands if not f["key"].startswith("trait ") and "::trait " not in f["key"]]
                pick = (imp or cands or [None])[0]
            if pick is None:
                prim = [self.fn_at(s["line_start"]) for s in spans if s["is_primary"]]
                prim = [f for f in prim if f]
                pick = (prim or cands or [None])[0]
            text = "%s at woven line %s: %s" % (x["message"], lines[0] if lines else "?", (spans[0]["text"][0]["text"].strip() if spans and spans[0].get("text") else ""))
            if pick is not None and x["message"].startswith("assertion failed"):
                for s in spans[:1]:
                    if s["line_start"] == s["line_end"]:
                        self.hints.append((s["line_start"], s["column_start"], s["column_end"]))
            if pick is not None:
                key = pick["key"]
                if RLIMIT.search(x["message"]) and not VERIF_FAIL.search(x["message"]):
                    self.undecided[key] = "the solver gave up: " + x["message"]
                else:
                    self.failed.setdefault(key, []).append(text)
            else:
                name = lemma_at(src, lines)
                if name and name.startswith("vx_probe"):
                    probes.add(name)
                elif RLIMIT.search(x["message"]) and not VERIF_FAIL.search(x["message"]):
                    self.undecided[name or "?"] = "the solver gave up: " + x["message"]
                else:
                    self.lemma_failed.setdefault(name or "?", []).append(text)
        want = {m.group(1) for l in src for m in [re.match(r"\s*(?:pub )?proof fn (vx_probe\w*)", l)] if m}
        if want:
            self.probe_ok = want == probes
            self.probes = sorted(want)
        return "ok"

    def excuse(self):
        # a failure in a function that calls code without contract is not decided by the proof
        if self.uncontracted:
            src = open(self.rs).read().split("\n")
            names = {re.search(r"(\w+)$", k).group(1): k for k in self.uncontracted if re.search(r"(\w+)$", k)}
            for k in list(self.failed):
                f = next((f for f in self.functions if f["key"] == k), None)
                if f is None:
                    continue
                body = "\n".join(src[f["line_lo"] - 1:f["line_hi"]])
                hit = [n for n in names if re.search(r"\b%s\b" % re.escape(n), body)]
                if hit or k in self.uncontracted:
                    self.undecided[k] = "uses code without a contract: " + ", ".join(hit or [k])
                    del self.failed[k]

    def confirm(self):
        """A failure counts when it does not depend on what the solver saw before: every obligation that failed is
        tried again, in a solver of its own and with another seed, and fails only when each attempt fails.  Proof
        hints (asserts of the weaver's own) that failed are left out of the new attempts: the contract decides."""
        self.retried = []
        drop = set(self.hints)
        for seed in (3, 11):
            again = set(self.failed) | set(self.lemma_failed) | {k for k, m in self.undecided.items() if m.startswith("the solver gave up")}
            if self.broken or not again or self.wall > 150:
                break
            src = open(self.rs).read().split("\n")
            spin = "#[verifier::spinoff_prover] "
            for ln, c0, c1 in sorted(drop, reverse=True):
                t = src[ln - 1]
                e = t[c0 - 1:c1 - 1]
                new = "assert(true)" if e.startswith("assert(") else "true"
                src[ln - 1] = t[:c0 - 1] + new + " " * max(0, len(e) - len(new)) + t[c1 - 1:]
            for k in again:
                f = next((f for f in self.functions if f["key"] == k), None)
                name = (re.search(r"(\w+)$", k) or [0, "?"])[1]
                if name == "?":
                    continue
                lo, hi = (f["line_lo"] - 1, f["line_hi"]) if f else (0, len(src))
                for i in range(lo, hi):
                    m = re.search(r"(?:pub(?:\([^)]*\))? )?(?:broadcast )?(?:open |closed )?(?:proof |spec |exec )?fn %s\b" % name, src[i])
                    if m:
                        if "spinoff_prover" not in src[i] + src[i - 1] + src[i - 2]:
                            src[i] = src[i][:m.start()] + spin + src[i][m.start():]
                        break
            orig, first = self.rs, dict(self.__dict__)
            self.rs = orig[:-3] + "_again.rs"
            open(self.rs, "w").write("\n".join(src))
            self.undecided = {}
            r = self.verify(["--smt-option", "smt.random_seed=%d" % seed])
            failed, und, lemma, broken = self.failed, self.undecided, self.lemma_failed, self.broken
            second = set(failed) | set(lemma)
            # (columns are those of the original text unless the line got the spin-off attribute)
            drop |= {h for h in self.hints if spin not in src[h[0] - 1]}
            self.__dict__.update(first)
            if r != "ok" or broken:
                return
            for d in (self.failed, self.lemma_failed):
                for k in [k for k in d if k not in second]:
                    if k in und:
                        self.undecided[k] = "the solver gave up when asked again: " + d[k][0][:160]
                    self.retried.append(k)
                    del d[k]
            for k in [k for k, m in self.undecided.items() if m.startswith("the solver gave up: ") and k not in second and k not in und]:
                self.retried.append(k)
                del self.undecided[k]
        if self.retried:
            log("accepted when asked again:", ", ".join(self.retried)[:300])

    def fn_at(self, ln):
        best = None
        for f in self.functions:
            if f["line_lo"] <= ln <= f["line_hi"] and (best is None or f["line_hi"] - f["line_lo"] < best["line_hi"] - best["line_lo"]):
                best = f
        return best

    def locate_compile_errors(self):
        bad = set()
        for x in getattr(self, "comp", []):
            for s in x["spans"]:
                if not s["file_name"].endswith(os.path.basename(self.rs)):
                    continue
                f = self.fn_at(s["line_start"])
                if f:
                    bad.add(f["key"])
                    break
        return bad


def lemma_at(src, lines):
    for ln in lines:
        for i in range(min(ln, len(src)) - 1, -1, -1):
            m = re.match(r"\s*(?:#\[.*\]\s*)?(?:pub |broadcast )*(?:proof|spec|open spec|closed spec|exec)? ?fn (\w+)", src[i])
            if m:
                return m.group(1)
    return None


def trusted_scan(src, fns):
    """every place of the woven file the verifier takes on trust"""
    out = []
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("//"):
            continue
        if re.search(r"\bassume\s*\(|\badmit\s*\(", l):
            out.append("assume/admit: " + s[:120])
        if re.search(r"\baxiom fn\b", l):
            out.append("axiom " + re.search(r"axiom fn (\w+)", l).group(1))
        if "assume_specification" in l:
            out.append("assumed contract of " + re.sub(r".*\[\s*(.*?)\s*\]\s*\(.*", r"\1", s)[:80])
        if "external_body" in l:
            m = re.search(r"fn (\w+)", l) or (re.search(r"fn (\w+)", src[i + 1]) if i + 1 < len(src) else None)
            out.append("unverified body: " + (m.group(1) if m else s[:80]))
        if "external_type_specification" in l or "uninterp spec fn" in l:
            m = re.search(r"fn (\w+)", l)
            out.append("uninterpreted: " + (m.group(1) if m else s[:80]))
    r, seen = [], {}
    for x in out:
        seen[x] = seen.get(x, 0) + 1
    return ["%s%s" % (k, " (x%d)" % n if n > 1 else "") for k, n in sorted(seen.items())]


_weave = None
_lock = threading.Lock()


def build_weave_once():
    global _weave
    with _lock:
        if _weave is None:
            _weave = build_weave()
    return _weave


def squash(s):
    return re.sub(r"\s+", "", s)


class Task(threading.Thread):
    def __init__(self, f, *a):
        super().__init__(daemon=True)
        self.f, self.a, self.res, self.exc = f, a, None, None
        self.start()

    def run(self):
        try:
            self.res = self.f(*self.a)
        except SystemExit as e:
            self.exc = e
        except BaseException as e:
            import traceback
            self.exc = RuntimeError(traceback.format_exc())

    def get(self):
        self.join()
        if self.exc is not None:
            if isinstance(self.exc, SystemExit):
                sys.exit(self.exc.code)
            die("internal: " + str(self.exc))
        return self.res


# ------------------------------------------------------------------------------- verdict
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


class Verdict:
    """Collects what one check saw and turns it into exit status, VIOLATION line and evidence."""

    def __init__(self, pid, level="proof"):
        self.pid, self.level = pid, level
        self.units, self.conc, self.assumptions, self.notes = [], [], [], []
        self.sel = lambda unit, key: True
        self.known_seen = []

    def add_unit(self, u, fn_filter=None, lemma_filter=None):
        self.units.append((u, fn_filter or (lambda k: True), lemma_filter or (lambda k: True)))

    def add_conc(self, name, res):
        """res: {evaluations, distinct, samples, failures:[str], cmd}"""
        self.conc.append((name, res))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        failed, undecided, obligations, discharged, smt = [], [], 0, 0, 0
        fns, trusted, cmds, probes, edits, drops = [], set(), [], [], {}, []
        for u, ff, lf in self.units:
            if u.broken:
                undecided.append("%s: %s" % (u.name, u.broken))
                continue
            cmds.append(u.cmd)
            smt += u.smt_ms
            trusted |= set(u.trusted)
            drops += [x[:200] for x in u.drops][:40]
            for k, v in u.edits.items():
                edits[k] = edits.get(k, 0) + v
            if u.probe_ok is False:
                undecided.append("%s: a probe that has to fail was accepted, or did not run" % u.name)
            bad = set(u.failed) | set(u.undecided)
            for f in u.functions:
                if ff(f["key"]):
                    obligations += 1
                    if f["key"] not in bad:
                        discharged += 1
                        fns.append(f["key"])
            lem = [n for n, ok, t in u.names if re.search(r"::(vx_|rt$|srt$|urt$|nrt$)", n) or n.split("::")[-1].startswith("vx_")]
            lem = [n for n in lem if not n.split("::")[-1].startswith("vx_probe")]
            for n in lem:
                if lf(n):
                    obligations += 1
                    if n.split("::")[-1] not in u.lemma_failed and n.split("::")[-1] not in u.undecided:
                        discharged += 1
            for k, m in u.failed.items():
                if ff(k):
                    failed.append((u, k, m))
            for k, m in u.lemma_failed.items():
                if lf(k):
                    failed.append((u, "lemma " + k, m))
            for k, m in u.undecided.items():
                if ff(k) or k.startswith("vx_"):
                    undecided.append("%s: %s (%s)" % (u.name, k, m[:200]))
        concfail = [(n, f) for n, r in self.conc for f in r.get("failures", [])]
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "wall_s": 0.0,
            "coverage": {
                "obligations": obligations, "discharged": discharged,
                "checker_cmd": "; ".join(cmds), "trusted_base": sorted(trusted),
                "functions_under_contract": fns, "solver": "Verus / Z3", "solver_ms": smt,
                "extraction_edits": edits, "dropped_by_extraction": drops, "undecided": undecided,
                "bounded_stand_ins": [{"name": n, "evaluations": r.get("evaluations", 0), "distinct_nontrivial": r.get("distinct", 0), "command": r.get("cmd", ""), "samples": [s[:400] for s in r.get("samples", [])[:3]], "note": r.get("note", "bounded: random cases, never counted as proved")} for n, r in self.conc],
            },
            "assumptions": self.assumptions, "violations": 0,
        }
        if self.level != "proof":
            ev["coverage"]["explanation"] = getattr(self, "explanation", "bounded differential check of the real code; see bounded_stand_ins")
            ev["coverage"]["evaluations"] = sum(r.get("evaluations", 0) for _, r in self.conc)
            ev["coverage"]["distinct_nontrivial"] = sum(r.get("distinct", 0) for _, r in self.conc)
            ev["coverage"]["samples"] = [s for _, r in self.conc for s in r.get("samples", [])][:3]
        for u in undecided:
            log("UNDECIDED (bounded stand-in only):", u[:400])
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
        if obligations == 0 and not undecided and self.level == "proof":
            die("no obligations were generated")
        rc = 0
        if concfail or failed:
            rc = 1
            path = os.path.join(EVID, "replay-%s.txt" % self.pid)
            with open(path, "w") as f:
                f.write("property %s\n\n" % self.pid)
                for n, x in concfail:
                    f.write("FAILING INPUT (%s): %s\n\n" % (n, x))
                for n, r in self.conc:
                    if r.get("failures"):
                        f.write("replay with: %s\n\n" % r.get("cmd", ""))
                for u, k, m in failed:
                    f.write("FAILED OBLIGATION in %s: %s\n" % (u.name, k))
                    for x in m:
                        f.write("    %s\n" % x)
                if failed:
                    f.write("\nverifier: %s\n\n" % "; ".join(cmds))
                    for u in {id(u): u for u, _, _ in failed}.values():
                        for x in u.diags:
                            f.write(x.get("rendered", "") + "\n")
            ev["violations"] = len(concfail) + len(failed)
            for u, k, m in failed[:8]:
                log("failed obligation:", u.name, k, "|", m[0][:300])
            for n, x in concfail[:4]:
                log("failing input:", n, x[:600])
            print("VIOLATION property=%s replay=%s%s" % (self.pid, path, "" if concfail else " no-failing-input-found"), flush=True)
        ev["wall_s"] = round(time.time() - T0, 2)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        log("%s: %d obligations, %d discharged, %d undecided, %d failed; %d concrete cases; exit %d" % (
            self.pid, obligations, discharged, len(undecided), len(failed), sum(r.get("evaluations", 0) for _, r in self.conc), rc))
        sys.exit(rc)
