"""Contracts for generated Rust consumers (requests, responses, broadcasts, handshake)."""
import os
import run
from run import SP, USE, USER, BU, LOG, OLD, prot_post, camel

REQS = {
    "ping": ("Ping", [("Pong", "Response"), ("Fault", "Err")]),
    "bell": ("Bell", [("Pong", "Ring"), ("Fault", "Err")]),
    "chat_message": ("Chat::Message", [("Chat::Accepted", "Accept"), ("Chat::Denied", "Deny|Err"), ("Pong", "Quiet")]),
    "chat_deep_ask": ("Chat::Deep::Ask", [("Chat::Deep::Answer", "Full"), ("Pong", "Empty"), ("Fault", "Err")]),
}
BEACONS = {"beat": "Beat", "chat_deep_note": "Chat::Deep::Note"}
CASTS = {"news": "News", "alarm": "Alarm", "chat_deep_note": "Chat::Deep::Note"}


def wrap(ty, v="x"):
    """the pattern of AvailableMessages for a type"""
    p = ty.split("::")
    o = "protocol::%sAvailableMessages::%s(%s)" % ("".join(x + "::" for x in p[:-1]), p[-1], v)
    for i in range(len(p) - 2, -1, -1):
        o = "protocol::%sAvailableMessages::%s(%s)" % ("".join(x + "::" for x in p[:i]), p[i], o)
    return o


GE = "E: client::Error"
W = "Tracked(vx_w): Tracked<&mut crate::VxWorld>"
OLDW = "old(vx_w).log"
# what came out of a task is written down by who called it (verified code, no assumption)
WRAP = f"""fn vx_messages<{GE}>(a: UnboundedReceiver<client::Event<E>>, b: UnboundedSender<Emitter<E>>, c: UnboundedReceiver<Auth<E>>, d: UnboundedSender<Auth<E>>, e: Api<E>, f: Options, g: CancellationToken, {W}) -> (r: Result<(), ConsumerError<E>>)
ensures exists|l: VxLogS| vx_quiet(old(vx_w).log, l) && final(vx_w).log == #[trigger] l.push(VxEv::Done(0, vx_out(r), g.id()))
{{ let r = client_messages_task::<E>(a, b, c, d, e, f, g, Tracked(vx_w)); proof {{
    let es = choose|es: Seq<VxIn>| vx_w.log == (#[trigger] vx_read(vx_reader(old(vx_w).log), f.key, es)).l;
    vx_quiet_read(vx_reader(old(vx_w).log), f.key, es); vx_note(vx_w, VxEv::Done(0, vx_out(r), g.id())); }} r }}
fn vx_api<{GE}, Ctrl: client::Control<E> + Send + Sync + Clone>(a: Ctrl, b: UnboundedSender<Auth<E>>, c: UnboundedReceiver<Channel>, d: Sender<oneshot::Sender<()>>, e: CancellationToken, {W}) -> (r: Result<(), ConsumerError<E>>)
ensures exists|l: VxLogS| vx_quiet(old(vx_w).log, l) && final(vx_w).log == #[trigger] l.push(VxEv::Done(1, vx_out(r), e.id()))
{{ let r = client_api_task::<E, Ctrl>(a, b, c, d, e, Tracked(vx_w)); proof {{
    let cs = choose|cs: Seq<VxCmd>| vx_w.log == (#[trigger] vx_served(vx_start(old(vx_w).log), cs)).l;
    vx_quiet_served(old(vx_w).log, cs); vx_note(vx_w, VxEv::Done(1, vx_out(r), e.id())); }} r }}
fn vx_emitter<{GE}>(a: UnboundedReceiver<Emitter<E>>, b: Consumer<E>, c: Context, {W}) -> (r: Context)
ensures vx_quiet(old(vx_w).log, final(vx_w).log)
{{ let r = consumer_emitter_task::<E>(a, b, c, Tracked(vx_w)); proof {{
    let es = choose|es: Seq<VxEmit>| vx_w.log == #[trigger] vx_told(old(vx_w).log, es);
    vx_quiet_told(old(vx_w).log, es); }} r }}
fn vx_listen<C: 'static + client::Impl<E, Ctrl>, {GE}, Ctrl: 'static + client::Control<E> + Send + Sync + Clone>(a: C, b: Context, c: Options, d: UnboundedReceiver<oneshot::Sender<Consumer<E>>>, {W}) -> (r: Result<(C, Context, UnboundedReceiver<oneshot::Sender<Consumer<E>>>, bool), ConsumerError<E>>)
ensures final(vx_w).log.len() > 0, vx_pick(final(vx_w).log, 7) == vx_pick(old(vx_w).log, 7).push(VxEv::Run(vx_ran(r)))
{{ broadcast use vx_ends; let r = listen(a, b, c, d, Tracked(vx_w)); proof {{ vx_note(vx_w, VxEv::Run(vx_ran(r))); }} r }}
"""


LIFE = lambda k: k in ("consumer::fn listen", "consumer::fn connect") or "ConsumerGetter" in k


def rules(cd, spec="", lemmas="", life=True):
    I = cd + "/implementation/"
    src = []

    def add(path, prefix, pre, post="", **kw):
        src.append(dict({"path": path, "prefix": prefix, "pre": pre, "post": post, "erase_async": True, "inline_maps": True, "inline_ctor_maps": True, "selects": True,
                         "world_methods": ["send"], "world_fns": ["oneshot::channel"]}, **kw))

    add(I + "protocol/mod.rs", "protocol::", "pub mod protocol { " + USE, prot_post() + "}", types_only=True, erase_async=False, mod_prelude="use vstd::prelude::*; use crate::vx::*;",
        drop=["protocol::struct Buffer", "protocol::struct IncomeMessage"], stub_types=True)
    add(I + "consumer/mod.rs", "consumer::", "pub mod consumer { " + USE + "use crate::tokio::{sync::{mpsc::{channel, unbounded_channel, Receiver, Sender, UnboundedReceiver, UnboundedSender}, oneshot, CancellationToken}, time::{vx_pause, Duration}}; " + (WRAP if life else ""), subst=[["sleep(", "vx_pause("]], world_methods=["send", "observer", "cancel"],
        paths={} if not life else {"client_messages_task": "vx_messages", "client_api_task": "vx_api", "consumer_emitter_task": "vx_emitter", "listen": "vx_listen"})
    for i, n in enumerate(("error", "options", "api", "controller")):
        add(I + "consumer/%s.rs" % n, "%s::" % n, "pub mod %s { " % n + USE + ("use crate::tokio::{sync::CancellationToken, time::{sleep, Duration}};" if n in ("api", "controller") else ""), "}" + ("}" if i == 3 else ""))
    for kind in ("broadcasts", "events"):
        names = sorted(f[:-3] for f in os.listdir(cd + "/" + kind) if f.endswith(".rs") and f != "mod.rs")
        for i, n in enumerate(names):
            add(cd + "/" + kind + "/%s.rs" % n, "%s::%s::" % (kind, n), ("pub mod %s { " % kind + USE + "use super::*; " if i == 0 else "") + "pub mod %s { " % n + USE, "}" + ("}" if i == len(names) - 1 else ""))
    add(I + "mod.rs", "", "use crate::vx::*; use context::Context; pub use consumer::{controller, controller::Consumer, error::ConsumerError}; ", "")
    stub = [s["prefix"] + "fn handler" for s in src if s["prefix"].startswith(("broadcasts::", "events::"))]
    return {
        "header": open(os.path.join(SP, "rt_common.rs")).read() + open(os.path.join(SP, "cons_std.rs")).read() + spec + lemmas, "footer": "\n} // verus!\n",
        "loops_need_rules": False, "publish": True, "drop_derives": ["Debug", "Error", "PartialEq", "Clone"], "drop_attrs": ["error", "allow", "path"],
        "drop_uses": ["log::", "thiserror", "std::collections", "std::marker", "std::str", "tokio::{", "tokio_util", "futures", "super::context", "context::Context", "std::{", "tokio::time", "consumer::{connect"],
        "mod_prelude": "use vstd::prelude::*;",
        "methods": {"clone": "vx_clone", "to_string": "vx_to_string", "to_vec": "vx_to_vec"},
        "paths": {"String::from": "vx_string_from"},
        "macros": {"format": "vx_formatm", "debug": "vx_logm", "warn": "vx_logm", "trace": "vx_logm", "error": "vx_logm", "println": "vx_logm", "panic": "unimplemented"},
        "traceless": ["connect"],
        "drop": [] if life else ["consumer::fn connect", "consumer::fn listen", "consumer::struct ConsumerGetter", "consumer::impl ConsumerGetter<E>", "consumer::type ConsumerGetterChannel"],
        "sources": src, "stub": stub, "items": {k: v for k, v in items().items() if life or not LIFE(k)}}


def asked(cmd, ty, expr="x"):
    """what a call of Api does: its command is handed over and the answer awaited"""
    return """ensures ({ let a = vx_asked::<%s>(%s, %s); %s == a.0 && match r { Ok(x) => a.1 == Some(%s), Err(_) => a.1 is None } })""" % (ty, OLD, cmd % ("%s.len() as int" % OLD), LOG, expr)


def items():
    I = {}
    A = "api::impl Api<E>::fn "
    I[A + "new"] = {"ret": "r", "clauses": "ensures r.tx_client_api == tx_client_api, r.tx_auth == tx_auth"}
    I[A + "get_shutdown_token"] = {"ret": "r", "clauses": "ensures r == self.shutdown"}
    I["controller::impl Consumer<E>::fn new"] = {"ret": "r", "clauses": "ensures r.api == api, r.timeout == timeout"}
    I["controller::impl Consumer<E>::fn get_shutdown_token"] = {"ret": "r", "clauses": "ensures r == self.api.shutdown"}
    I["options::impl Options::fn defualt"] = {"ret": "r", "clauses": "ensures r.key == key"}
    I[A + "sequence"] = {"ret": "r", "clauses": asked("VxCmd::Sequence(%s)", "u32")}
    I[A + "send"] = {"ret": "r", "clauses": "ensures %s == %s.push(VxEv::Put(VxVal::Cmd(VxCmd::Send(vx_body(buffer@))))), r is Ok <==> vx_ok(%s)" % (LOG, OLD, LOG)}
    I[A + "request"] = {"ret": "r", "clauses": asked("VxCmd::Request(sequence, vx_body(buffer@), %s)", "protocol::AvailableMessages")}
    I[A + "accept"] = {"ret": "r", "clauses": asked("VxCmd::Accept(sequence, msg, %s)", "bool")}
    I[A + "uuid"] = {"ret": "r", "clauses": asked("VxCmd::Uuid(%s)", "Option<Uuid>")}
    I[A + "uuid_as_string"] = {"ret": "r", "start": BU, "clauses": """ensures ({ let a = vx_asked::<Option<Uuid>>(%s, VxCmd::Uuid(%s.len() as int)); %s == a.0 && match r { Ok(x) => a.1 is Some && vx_ut(a.1->0) == protocol::vx_os(x), Err(_) => a.1 is None } })""" % (OLD, OLD, LOG)}
    I[A + "shutdown"] = {"ret": "r", "clauses": asked("VxCmd::Shutdown(%s)", "()")}
    C = "controller::impl Consumer<E>::fn "
    I[C + "shutdown"] = {"ret": "r", "clauses": asked("VxCmd::Shutdown(%s)", "()")}
    for n, (ty, outs) in REQS.items():
        enum = ty.replace("::", "") + "Response"
        ok = lambda v: "r == Ok::<%s, ConsumerError<E>>(%s::%s(x))" % (enum, enum, v)
        # a type that is both a conclusion and the error of a request cannot be told apart
        arms = " ".join("%s => %s," % (wrap(t), " || ".join(ok(x) for x in v.split("|"))) for t, v in outs)
        I[C + n] = {"ret": "r", "start": BU + " proof { reveal(vx_request); reveal(vx_unsent); }", "clauses": f"""ensures ({{ let a = vx_request({OLD}, request); match r {{
    Err(ConsumerError::Timeout) => {LOG} == a.0 || (vx_unsent({OLD}, request).1 && {LOG} == vx_unsent({OLD}, request).0),
    _ => {LOG} == a.0 && match a.1 {{ None => r is Err, Some(m) => match m {{ {arms} _ => r is Err && r->Err_0 is UnexpectedResponse }} }} }} }})"""}
    for n, ty in BEACONS.items():
        I[C + "beacon_" + n] = {"ret": "r", "start": BU + " proof { reveal(vx_request); }", "clauses": f"""ensures ({{ let a = vx_request({OLD}, beacon); {LOG} == a.0 && match a.1 {{ None => r is Err, Some(m) => match m {{
    protocol::AvailableMessages::InternalServiceGroup(protocol::InternalServiceGroup::AvailableMessages::BeaconConfirmation(x)) => match x.error {{ None => r is Ok, Some(t) => r is Err && r->Err_0 is Broadcast && r->Err_0->Broadcast_0 == t }},
    _ => r is Err && r->Err_0 is UnexpectedResponse }} }} }})"""}
    M = "consumer::"
    for p in (M + "mod shortcuts::fn ", M + "shortcuts::fn "):
        I[p + "emit_event"] = {"clauses": "ensures %s == %s.push(VxEv::Put(VxVal::Emit(vx_emit(event))))" % (LOG, OLD)}
        I[p + "emit_error"] = {"clauses": "ensures %s == vx_error(%s, vx_kind(err))" % (LOG, OLD)}
    I[M + "fn client_api_task"] = {"ret": "r", "start": BU, "attrs": "#[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]", "clauses": f"""ensures exists|cs: Seq<VxCmd>| {{ let s = #[trigger] vx_served(vx_start({OLD}), cs); {LOG} == s.l && (r is Ok <==> s.ok) }}""",
        "loops": [{"kind": "while", "before": f"let ghost mut vx_cs = Seq::<VxCmd>::empty(); let ghost vx_s0 = vx_start({OLD.replace('old(vx_w)', 'vx_w')}); assert(vx_served(vx_s0, vx_cs) == vx_s0);",
                   "clauses": """invariant vx_served(vx_s0, vx_cs) == (VxA { l: vx_w.log, p: vx_ids(pending@), n: sequence, ok: true }), vx_s0 == vx_start(old(vx_w).log), 10 <= sequence < u32::MAX - 1,
ensures vx_served(vx_s0, vx_cs) == (VxA { l: vx_w.log, p: vx_ids(pending@), n: sequence, ok: true }), vx_s0 == vx_start(old(vx_w).log),""",
                   "start": BU + " proof { vx_cs = vx_cs.push(vx_cmd(command)); reveal(vx_serve); let vx_t = vx_served(vx_s0, vx_cs); }"}]}
    I[M + "fn auth"] = {"ret": "r", "start": BU + " proof { reveal(vx_shake); }", "clauses": f"""ensures ({{ let a = vx_shake({OLD}, options.key); {LOG} == a.0 && match r {{ Ok(u) => a.1 == Ok::<String, VxKind>(u), Err(e) => a.1 == Err::<String, VxKind>(vx_kind(e)) }} }})"""}
    I[M + "fn client_messages_task"] = {"ret": "r", "start": BU, "attrs": "#[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]", "clauses": f"""ensures exists|es: Seq<VxIn>| {{ let s = #[trigger] vx_read(vx_reader({OLD}), options.key, es); {LOG} == s.l && (r is Ok <==> s.ok) }}""",
        "loops": [{"kind": "while", "before": "let ghost mut vx_es = Seq::<VxIn>::empty(); let ghost vx_s0 = vx_reader(vx_w.log); assert(vx_read(vx_s0, options.key, vx_es) == vx_s0);",
                   "clauses": """invariant vx_read(vx_s0, options.key, vx_es) == (VxM { l: vx_w.log, pend: buffer.pend(), q: buffer.q(), u: uuid, ok: true }), vx_s0 == vx_reader(old(vx_w).log),
ensures vx_read(vx_s0, options.key, vx_es) == (VxM { l: vx_w.log, pend: buffer.pend(), q: buffer.q(), u: uuid, ok: true }), vx_s0 == vx_reader(old(vx_w).log),""",
                   "start": BU + " proof { vx_es = vx_es.push(vx_in(msg)); reveal(vx_came_in); let vx_t = vx_read(vx_s0, options.key, vx_es); }"},
                  {"kind": "while", "clauses": """invariant vx_read(vx_s0, options.key, vx_es) == vx_packets(VxM { l: vx_w.log, pend: buffer.pend(), q: buffer.q(), u: uuid, ok: true }, options.key), vx_s0 == vx_reader(old(vx_w).log),
ensures vx_read(vx_s0, options.key, vx_es) == vx_packets(VxM { l: vx_w.log, pend: buffer.pend(), q: buffer.q(), u: uuid, ok: true }, options.key), buffer.q().len() == 0, vx_s0 == vx_reader(old(vx_w).log),
decreases buffer.q().len()""", "after": "proof { reveal(vx_packets); }",
                   "start": BU + " proof { reveal_with_fuel(vx_packets, 2); reveal(vx_packet); }"}]}
    I[M + "fn consumer_emitter_task"] = {"ret": "r", "start": BU, "attrs": "#[verifier::exec_allows_no_decreases_clause]", "clauses": f"ensures exists|es: Seq<VxEmit>| {LOG} == #[trigger] vx_told({OLD}, es)",
        "loops": [{"kind": "while", "before": "let ghost mut vx_es = Seq::<VxEmit>::empty(); let ghost vx_l0 = vx_w.log; assert(vx_told(vx_l0, vx_es) == vx_l0);",
                   "clauses": "invariant vx_w.log == vx_told(vx_l0, vx_es), vx_l0 == old(vx_w).log, ensures vx_w.log == vx_told(vx_l0, vx_es), vx_l0 == old(vx_w).log,",
                   "start": BU + " proof { vx_es = vx_es.push(vx_emit(msg)); let vx_t = vx_told(vx_l0, vx_es); }"}]}
    I[M + "impl ConsumerGetter<E>::fn get"] = {"ret": "r", "clauses": f"""ensures ({{ let a = vx_asked_me::<Consumer<E>>({OLD}); {LOG} == a.0 && match r {{ Ok(x) => a.1 == Some(x), Err(_) => a.1 is None }} }})"""}
    QUIET = "vx_quiet(vx_g0, vx_w.log)"
    I[M + "fn listen"] = {"ret": "r", "start": "broadcast use vx_ends;", "attrs": "#[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]", "clauses": f"""ensures
    !vx_watched({OLD}) ==> r is Err && {LOG} == {OLD}.push(VxEv::Watch),
    vx_watched({OLD}) ==> vx_pick({LOG}, 1) == vx_pick({OLD}, 1).push(VxEv::Watch) || vx_pick({LOG}, 1) == vx_pick({OLD}, 1).push(VxEv::Watch).push(VxEv::Left(true)) || vx_pick({LOG}, 1) == vx_pick({OLD}, 1).push(VxEv::Watch).push(VxEv::Left(false)),
    vx_watched({OLD}) ==> vx_once({OLD}, {LOG}, 3) && vx_once({OLD}, {LOG}, 4),
    vx_watched({OLD}) ==> vx_pick({LOG}, 2) == vx_said(vx_pick({OLD}, 2), vx_why({LOG})),
    vx_watched({OLD}) ==> (r is Err <==> vx_why({LOG}) is Some),
    vx_watched({OLD}) ==> vx_ended({OLD}, {LOG}, vx_ran(r)),
    vx_watched({OLD}) ==> vx_token({LOG}) == vx_pick({LOG}, 4).last()->Done_2 && (vx_left({LOG}, vx_token({LOG})) ==> vx_left({OLD}, vx_token({LOG}))),
    vx_idle({OLD}, {LOG}, 7),
    vx_owed({LOG}) ==> vx_owed({OLD}),""",
        "loops": [{"kind": "while", "before": "let ghost vx_g0 = vx_w.log;", "clauses": f"invariant {QUIET}, ensures {QUIET},", "start": "broadcast use vx_ends;"}]}
    STR = "match options.reconnection { ReconnectionStrategy::Reconnect(t) => Some(t), _ => None }"
    I[M + "fn connect"] = {"ret": "r", "start": "broadcast use {vx_ends, vx_runs};", "attrs": "#[verifier::exec_allows_no_decreases_clause]", "clauses": f"""ensures vx_over(vx_pick({OLD}, 7), vx_pick({LOG}, 7), {STR})""",
        "loops": [{"kind": "while", "before": f"let ghost vx_g0 = vx_pick(vx_w.log, 7); let ghost vx_s: Option<u64> = {STR};", "clauses": f"""invariant vx_s == ({STR}), vx_g0 == vx_pick(old(vx_w).log, 7), holder is Some ==> vx_story(vx_g0, vx_pick(vx_w.log, 7), vx_s), holder is None ==> vx_over(vx_g0, vx_pick(vx_w.log, 7), vx_s), ensures vx_over(vx_g0, vx_pick(vx_w.log, 7), vx_s),""", "start": "broadcast use {vx_ends, vx_runs};"}]}
    U = {"attrs": "#[verifier::external_body]"}
    for n, ty in CASTS.items():
        I[f"broadcasts::{n}::fn handler"] = dict(U, clauses=f"ensures {LOG} == vx_user({OLD}.push(VxEv::Call(VxEmit::{camel(n)}(event))))")
    for n in ("connected", "disconnected"):
        I[f"events::{n}::fn handler"] = dict(U, clauses=f"ensures {LOG} == vx_user({OLD}.push(VxEv::Call(VxEmit::{camel(n)})))")
    I["events::error::fn handler"] = dict(U, clauses=f"ensures {LOG} == vx_user({OLD}.push(VxEv::Call(VxEmit::Error(vx_kind(error)))))")
    I["events::shutdown::fn handler"] = dict(U, clauses=f"ensures {LOG} == vx_user({OLD}.push(VxEv::Call(VxEmit::Shutdown(match error {{ Some(e) => Some(vx_kind(e)), None => None }}))))")
    I["events::reconnect::fn handler"] = dict(U, ret="r", clauses=f"ensures {LOG} == vx_user({OLD}.push(VxEv::Reconnect(${{p0}}))).push(VxEv::Again(r))")
    return I
