"""The checks of the protocol front end of the CLI (P01..P04): contracts on the parser and the store of
/repo's current tree, discharged by Verus, with a differential run of the same parser as bounded stand-in."""
import glob, json, os, re, shutil
import vk, front, flow

H = os.path.join(vk.ROOT, "tools/front_harness")
FLAGS = ["-C", "opt-level=2", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "codegen-units=8", "--cap-lints", "allow"]


def build_harness(pid):
    """the real modules of the CLI, compiled into the harness"""
    vk.build_cli()
    d = vk.workdir(pid + "-fh")
    for f in ("harness.rs", "proto.rs", "flow.rs"):
        t = open(os.path.join(H, f)).read().replace("@@CLI@@", os.path.join(vk.REPO, "cli"))
        open(os.path.join(d, f), "w").write(t)
    deps = os.path.join(vk.BUILD, "cli/release/deps")
    ext = []
    for c in ("ring", "data_encoding", "regex", "toml"):
        l = sorted(glob.glob(os.path.join(deps, "lib%s-*.rlib" % c)), key=os.path.getmtime)
        if l:
            ext += ["--extern", "%s=%s" % (c, l[-1])]
    rc, o, e = vk.sh(["rustc", "--edition", "2018"] + FLAGS + ["-L", deps] + ext + ["harness.rs", "-o", "fh"], cwd=d, env=vk.cargo_env("cli"), timeout=400)
    if rc:
        return None, e
    return os.path.join(d, "fh"), None


def run_harness(pid, mode, ms, seed=None, what="protocol"):
    fh, err = build_harness(pid)
    note = "bounded: random " + what + " files, whole and damaged, read by the real parser and by an independent reader"
    if fh is None:
        # the modules of the CLI moved: the harness cannot call them
        vk.log("harness does not fit the source:", err[-400:])
        return {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "cmd": "rustc harness.rs", "note": "the harness does not fit the source; nothing was run"}
    d = os.path.dirname(fh)
    out = os.path.join(d, "out.json")
    if os.path.exists(out):
        os.remove(out)
    seed = vk.SEED if seed is None else seed
    cmd = [fh, mode, str(seed), str(ms), out]
    full = "ulimit -v 20000000; exec " + " ".join(cmd)
    rc, o, e = vk.sh(["bash", "-c", full], timeout=ms / 1000 + 120, cwd=d)
    try:
        r = json.load(open(out))
    except Exception:
        r = {"evaluations": 1, "distinct": 1, "samples": [], "failures": ["the process ended with status %d during this run: %s; %s" % (rc, " ".join(cmd), e[-400:])]}
    r["cmd"] = " ".join(cmd)
    r["note"] = note + "; outcomes: %s" % json.dumps(r.get("notes", {}))
    return r


def store(*names): return r"impl Store::fn (%s)$" % "|".join(names)


SEL = {
    "P01": (lambda k: re.search(store("new", "open_\\w+", "open", "set_field_type", "close_field", "close", "bind_\\w+", "get_group_id", "get_group", "get_struct", "get_enum") + r"|impl Struct::fn (new|add_field)$|impl Field::fn new$|impl Group::|impl Enum::fn new$|impl Parser::fn parse$", k),
            lambda n: re.search(r"vx_wf_|vx_p01|vx_tree|vx_pos|vx_in_|vx_path", n)),
    "P02": (lambda k: re.search(store("find_by_path", "set_field_name", "set_enum_name", "set_enum_type", "set_field_type", "get_group_id") + r"|fn accept_type$|fn (add_type_path|add_ref_type_path|get_path|get_full_name|set_type|set_type_ref|create_not_assigned_primitive)$|PrimitiveTypes|impl Parser::fn parse$", k),
            lambda n: re.search(r"vx_p02|vx_first|vx_resolve|vx_ref|vx_isdef|vx_find|vx_step_refs|vx_pre_|nodes_", n)),
    "P03": (lambda k: True, lambda n: not re.search(r"vx_p0[124]", n)),
    "P04": (lambda k: True, lambda n: not re.search(r"vx_p0[123]", n)),
}

ASSUME = [
    "Contracts assumed of std: the shims of spec/front_std.rs (iterator adapters over slices, String and Vec operations without a vstd contract, character classes of `char`).",
    "Reading the file and hashing it are outside the contracts: the text and the hash of a file are arbitrary.",
    "A String is at most isize::MAX bytes long and has at least as many bytes as characters.",
    "The macro `stop!` ends the process: no contract speaks about what happens after it. That ill-formed files are rejected is proved (Ok implies well-formed); that well-formed files are accepted is only covered by the bounded stand-in.",
    "Texts of error messages are not interpreted.",
    "Functions of these modules which the parser does not use are dropped from the woven file: " + ", ".join(front.UNUSED) + ".",
]


FLOW_SEL = {
    "W01": (lambda k: True, lambda n: not re.search(r"vx_w0[23]", n)),
    "W02": (lambda k: True, lambda n: not re.search(r"vx_w0[13]|vx_cast_|_inv$", n)),
    "W03": (lambda k: re.search(r"fn (close|validate|valid|add_broadcast|add_event|add_request|add_beacon|next_beacon|is_request_exist|set_config|add_producer|add_consumer|set_self_key|set_assigned_key|is_default|parse|get_\w+|new)$|EntityParser for \w+::fn (next|extract|closed)$", k),
            lambda n: re.search(r"vx_w03|vx_cast_|_inv$", n)),
}

FLOW_ASSUME = [
    "Contracts assumed of std: the shims of spec/front_std.rs and spec/flow_spec.rs (iterator adapters over slices, String and Vec operations without a vstd contract, UTF-8 lengths and slices of texts, formatting of dotted references, comparison of texts).",
    "The schema of the protocol is seen through two assumed contracts: `Protocol::find_by_str_path` answers by the schema alone (this is proved of the real function by the checks of P01..P04) and `add_service_struct` records what it is given; `Field::create_not_assigned_primitive` stores its arguments.",
    "Reading the file and hashing it are outside the contracts: the text and the hash of a file are arbitrary. Workflow files that are not UTF-8 are out of scope.",
    "`Option<Box<dyn EntityParser>>::as_deref_mut` hands out the entity inside; `char::is_alphanumeric` rejects `@` and `&`; a String is at most isize::MAX bytes long.",
    "`impl Parser::fn err` (text of the message) is taken on trust beyond its precondition: that it is called at a character boundary is proved, its body is only run by the bounded stand-in.",
    "The visibility of types and fields is widened in the woven file; texts of messages are not interpreted.",
    "Functions which the parser does not use are dropped from the woven file: " + ", ".join(flow.UNUSED) + ".",
    "That ill-formed files are rejected is proved (Ok implies well-formed); that well-formed files are accepted is only covered by the bounded stand-in.",
]


def check_flow(pid):
    v = vk.Verdict(pid)
    v.assumptions = FLOW_ASSUME
    lem = open(os.path.join(vk.ROOT, "spec/flow_lemmas.rs")).read()
    u = vk.Unit(pid + "-flow", flow.rules(os.path.join(vk.REPO, "cli"), lemmas=lem), threads=6)
    t = vk.Task(u.run)
    v.add_conc("workflow files", run_harness(pid, pid, 90000 if vk.THOROUGH else 15000, what="workflow"))
    v.add_unit(t.get(), *FLOW_SEL[pid])
    v.finish()


def check(pid):
    if pid[0] == "W":
        return check_flow(pid)
    v = vk.Verdict(pid)
    v.assumptions = ASSUME
    lem = open(os.path.join(vk.ROOT, "spec/front_lemmas.rs")).read()
    u = vk.Unit(pid + "-front", front.rules(os.path.join(vk.REPO, "cli"), lemmas=lem), threads=6)
    t = vk.Task(u.run)
    v.add_conc("protocol files", run_harness(pid, pid, 90000 if vk.THOROUGH else 15000))
    v.add_unit(t.get(), *SEL[pid])
    v.finish()
