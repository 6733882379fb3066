"""The checks of generated producers and consumers (R01..R04): contracts on the runtime the CLI generates from the
templates of /repo's current tree, discharged by Verus, with a differential run of the same producer as bounded stand-in."""
import json, os, re, shutil
import vk, run, cons

H = os.path.join(vk.ROOT, "tools/run_harness")


def build_harness(pid, gen, kind):
    """the generated crate with scripted handlers of the user"""
    d = vk.workdir("run-" + kind)
    shutil.rmtree(os.path.join(d, "src"), ignore_errors=True)
    shutil.copytree(os.path.join(H, kind if kind != "producer" else "src"), os.path.join(d, "src"))
    shutil.copy(os.path.join(H, "Cargo.lock"), d)
    t = open(os.path.join(H, "Cargo.toml")).read()
    open(os.path.join(d, "Cargo.toml"), "w").write(t.replace("run_harness", "run_harness_" + kind) if kind != "producer" else t)
    if kind != "producer":
        l = open(os.path.join(d, "Cargo.lock")).read()
        open(os.path.join(d, "Cargo.lock"), "w").write(l.replace('"run_harness"', '"run_harness_%s"' % kind))
    shutil.copytree(os.path.join(gen, kind[0], "src", kind), os.path.join(d, "src", kind))
    st = os.path.join(H, "stubs" if kind == "producer" else "cstubs")
    for k in os.listdir(st):
        for f in os.listdir(os.path.join(st, k)):
            p = os.path.join(d, "src", kind, k, f)
            if not os.path.exists(p):
                return None, "no file %s/%s is generated" % (k, f)
            shutil.copy(os.path.join(st, k, f), p)
    rc, o, e = vk.sh(["cargo", "build", "--offline"], cwd=d, env=dict(vk.cargo_env("run"), RUSTFLAGS="--cap-lints allow"), timeout=600)
    if rc:
        return None, e
    return os.path.join(vk.BUILD, "run/debug", "run_harness" if kind == "producer" else "run_harness_" + kind), None


def run_harness(pid, gen, ms, kind="producer"):
    hx, err = build_harness(pid, gen, kind)
    note = {"producer": "bounded: random histories of connections, chunks of messages and events, handled by the real generated producer and by an independent model",
            "consumer": "bounded: random histories of requests, responses, broadcasts and timeouts, handled by the real generated consumer and by an independent model"}[kind]
    if hx is None:
        vk.log("harness does not fit the source:", err[-600:])
        return {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "cmd": "cargo build", "note": "the harness does not fit the source; nothing was run"}
    out = os.path.join(vk.workdir(pid + "-out"), "out.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [hx, pid, str(vk.SEED), str(ms), out]
    rc, o, e = vk.sh(["bash", "-c", "ulimit -v 20000000; exec " + " ".join(cmd)], timeout=ms / 1000 + 120)
    try:
        r = json.load(open(out))
    except Exception:
        r = {"evaluations": 1, "distinct": 1, "samples": [], "failures": ["the process ended with status %d during this run: %s; %s" % (rc, " ".join(cmd), e[-400:])]}
    r["cmd"] = " ".join(cmd)
    r["note"] = note + "; outcomes: %s" % json.dumps(r.get("notes", {}))
    return r


SEL = {
    "R01": (lambda k: re.search(r"impl Identification::|impl Consumer::fn (new|key|assign|get_identification|get_mut_identification)$|fn listener$", k),
            lambda n: re.search(r"vx_r01|vx_key|vx_or|vx_life|vx_lone|vx_cs", n)),
    "R02": (lambda k: re.search(r"^(handlers|emitters|beacons_callers|scope)::|Filter<'c>|impl Control<E,C>|impl Events|fn (add_connection|remove_connection|listener)$", k),
            lambda n: re.search(r"vx_r02|vx_bs|vx_packed|vx_bcast", n)),
    "R03": (lambda k: re.search(r"impl (Api|Consumer)<E>::|fn client_(api|messages)_task$|shortcuts::", k),
            lambda n: re.search(r"vx_r03|vx_ids|vx_last|vx_asker", n)),
    "R05": (lambda k: re.search(r"fn (auth|client_messages_task|client_api_task|consumer_emitter_task|listen|connect|vx_listen|vx_messages|vx_api|vx_emitter)$|ConsumerGetter|shortcuts::|impl Api<E>::fn (request|accept|uuid|new|get_shutdown_token)$", k),
            lambda n: re.search(r"vx_r05|vx_last|vx_quiet|vx_owed|vx_open|vx_unheard|vx_pick|vx_story|vx_over|vx_note|vx_listen|vx_messages|vx_api|vx_emitter", n)),
    "R06": (lambda k: re.search(r"impl Control<E,C>::fn shutdown$|producer::fn (listener|run|add_connection|remove_connection)$|^emitters::(ready|shutdown|error|connected|disconnected)::|impl Consumer::fn (new|confirm|get_identification)$", k),
            lambda n: re.search(r"vx_r06|vx_life|vx_lend|vx_lived|vx_run|vx_ran|vx_asked|vx_cs", n)),
    "R04": (lambda k: re.search(r"impl (Consumer|Options|Default for Options)::|fn (process_received_data|responsing_err|disconnect|add_connection|remove_connection|listener)$|impl Identification::fn (new|assigned|has_key|discredited|is_discredited|uuid)$", k),
            lambda n: not re.search(r"vx_r0[1236]|vx_bs|vx_packed", n)),
}

ASSUME = [
    "The producer is the one the CLI of this tree generates from schemas/flow.prot and schemas/flow.workflow: every construct of the workflow language occurs in it; other workflows go through the same templates.",
    "`async` and `await` are erased: a function is taken as running to its end without another task touching its data. The producer owns its consumers in one task, so this is how it runs; what the functions of the user do meanwhile is arbitrary.",
    "The functions of the user (responses, events, beacons) are external: they may do anything with what they are given, their result is arbitrary, and what they see of the consumers is what the filter and the identification show.",
    "The server may refuse any call; its answer is a function of everything that happened before.",
    "The stream reader and the packing of messages are seen through their contracts: what they do is proved of the same generated text by the checks of C01..C06. The time of creation inside a packet is not looked at.",
    "Contracts assumed of std, tokio and uuid: the shims of spec/run_std.rs (HashMap, iterator adapters of which only the set of items matters, channels, clones as equal values).",
    "`Result::map_err`, `Option::map` with a constructor or closure are inlined as matches; log macros and texts of errors are dropped; visibility is widened.",
    "The awaited async block of `listener` is taken in place: `?` in it leaves a loop with label that runs once. `select!` is a free choice among its arms (none of which loses anything when another one is taken: they only wait on channels and on a token); what comes out of a channel is arbitrary.",
    "That the two ends of a channel are connected is left to the types (no two channels of `listener` or of `run` carry the same type); that an answer given reaches who waits for it is tokio's.",
    "`join!` of async blocks in `run` is taken as its blocks one after another; each only does what it does in its own order, and what the others do shows in what comes out of the channels and in the token, which is arbitrary in any case. That a wait ends when its token is cancelled is tokio's.",
]

CASSUME = [
    "The consumer is the one the CLI of this tree generates from schemas/flow.prot and schemas/flow.workflow: every construct of the workflow language occurs in it; other workflows go through the same templates.",
    "`async` and `await` are erased: each task is described by the sequence of what it takes, sends and calls, in its own order. What the other tasks, the user's functions and the connection do in between is arbitrary: whatever comes through a channel, and whether sending succeeds, is an unconstrained function of everything that happened before.",
    "`select!` is taken as a free choice among its arms; an arm that did not complete has either done nothing or everything but been heard. The block of `spawn` (the handshake) is described at the place where it is started.",
    "The functions of the user (broadcasts, events) are external and may do anything.",
    "The stream reader and the packing of messages are seen through their contracts: what they do is proved of the same generated text by the checks of C01..C06. The time of creation inside a packet is not looked at.",
    "Contracts assumed of std, tokio and uuid: the shims of spec/rt_common.rs and spec/cons_std.rs (HashMap, channels deliver what was sent, a one-shot answer reaches the receiver it was made with, clones are equal values, cancellation has no effect but ending a wait).",
    "`Result::map_err`, `Option::map` with a constructor or closure are inlined as matches; log macros and texts of errors are dropped; visibility is widened.",
    "`join!` of async blocks is taken as its blocks one after another: each does what it does in its own order, whatever the others do shows in what comes out of the channels, which is arbitrary in any case; the contracts of `listen` compare no order between different blocks. A connection is an event at its end (Left); one that is given up before has none.",
    "That the two ends of a channel made in `listen` are connected is left to the types (no two of them carry the same type); that a task whose token is cancelled ends is tokio's.",
    "What the user's functions do does not count as an event of the run itself (they have no access to its channels and its connection): axiom vx_user_quiet.",
    "Sequences are distinct among 4294967284 consecutive requests; a request whose response never comes keeps its sequence, so a consumer that leaks so many of them ends with an error.",
]


def check(pid):
    v = vk.Verdict(pid)
    kind = "consumer" if pid in ("R03", "R05") else "producer"
    v.assumptions = ASSUME if kind == "producer" else CASSUME
    gen = vk.workdir(pid + "-gen")
    pd, err = run.generate(gen)
    if pd is None:
        v.add_conc("runtime", {"evaluations": 1, "distinct": 1, "samples": [], "cmd": "clibri -s flow.prot -wf flow.workflow -pd .. -cd ..", "note": "the reference workflow",
                               "failures": ["the CLI generates no code from the reference workflow: " + err]})
        return v.finish()
    rd = lambda n: open(os.path.join(vk.ROOT, "spec", n)).read()
    rules = run.rules(pd, spec=rd("run_spec.rs"), lemmas=rd("run_lemmas.rs")) if kind == "producer" else cons.rules(os.path.join(gen, "c/src/consumer"), rd("cons_spec.rs"), rd("cons_lemmas.rs"), life=pid == "R05")
    u = vk.Unit(pid + "-run", rules, threads=6)
    t = vk.Task(u.run)
    v.add_conc(kind, run_harness(pid, gen, 90000 if vk.THOROUGH else 15000, kind))
    v.add_unit(t.get(), *SEL[pid])
    v.finish()
