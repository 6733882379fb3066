"""Contracts for the runtime of generated Rust producers (identification, routing of messages, broadcasts)."""
import os, re, shutil, subprocess
import vk

SP = os.path.join(vk.ROOT, "spec")
SCH = os.path.join(vk.ROOT, "schemas")
CRATE = "[package]\nname = '%s'\nversion = '0.1.0'\nedition = '2021'\n[dependencies]\n"


def generate(d, cli=None):
    """producer and consumer of the reference workflow, by the generator of the current tree"""
    cli = cli or vk.build_cli()
    shutil.rmtree(d, ignore_errors=True)
    for n, sub in (("p", "producer"), ("c", "consumer")):
        os.makedirs(os.path.join(d, n, "src", sub))
        open(os.path.join(d, n, "Cargo.toml"), "w").write(CRATE % n)
    rc, o, e = vk.sh([cli, "-s", os.path.join(SCH, "flow.prot"), "-wf", os.path.join(SCH, "flow.workflow"), "-pd", os.path.join(d, "p/src/producer"), "-cd", os.path.join(d, "c/src/consumer"), "-o"], cwd=d)
    if rc or not os.path.exists(os.path.join(d, "p/src/producer/implementation/mod.rs")):
        return None, (o + e)[-800:]
    return os.path.join(d, "p/src/producer"), None


REQS = {"ping": "Ping", "bell": "Bell", "chat_message": "Chat::Message", "chat_deep_ask": "Chat::Deep::Ask"}
BEACONS = {"beat": "Beat", "chat_deep_note": "Chat::Deep::Note"}
EVENTS = {"alert": "Alert", "kick": "Kick"}
MSGS = ["Auth::Me", "Auth::Role", "Ping", "Pong", "Fault", "News", "Alarm", "Beat", "Alert", "Bell", "Kick", "Chat::Message", "Chat::Accepted", "Chat::Denied", "Chat::Deep::Ask", "Chat::Deep::Answer", "Chat::Deep::Note",
        "InternalServiceGroup::SelfKeyResponse", "InternalServiceGroup::HashRequest", "InternalServiceGroup::HashResponse", "InternalServiceGroup::BeaconConfirmation", "InternalServiceGroup::ConnectConfirmationBeacon"]

USE = "use vstd::prelude::*; use crate::vx::*; use crate::{clibri, uuid, tokio}; "


def prot_post():
    o = """
pub trait PackingStruct: Sized { spec fn vx_pk(&self, seq: u32, uuid: Option<Seq<char>>) -> Option<Seq<u8>>;
    fn pack(&mut self, sequence: u32, uuid: Option<String>) -> (r: Result<Vec<u8>, String>)
        ensures match r { Ok(b) => old(self).vx_pk(sequence, vx_os(uuid)) == Some(vx_body(b@)), Err(_) => old(self).vx_pk(sequence, vx_os(uuid)) is None }; }
pub open spec fn vx_os(u: Option<String>) -> Option<Seq<char>> { match u { Some(s) => Some(s@), None => None } }
pub uninterp spec fn vx_pack<T>(m: T, seq: u32, uuid: Option<Seq<char>>) -> Option<Seq<u8>>;
"""
    for m in MSGS:
        o += "impl PackingStruct for %s { open spec fn vx_pk(&self, seq: u32, uuid: Option<Seq<char>>) -> Option<Seq<u8>> { vx_pack(*self, seq, uuid) }\n    #[verifier::external_body] fn pack(&mut self, sequence: u32, uuid: Option<String>) -> (r: Result<Vec<u8>, String>) { unimplemented!() } }\n" % m
    # the reader of a stream, as C05 has it
    o += """
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Buffer<T> { t: std::marker::PhantomData<T> }
pub uninterp spec fn vx_rest<T>(b: Seq<u8>) -> Seq<u8>;                          // bytes of an unfinished packet
pub uninterp spec fn vx_out<T>(b: Seq<u8>) -> Seq<(T, PackageHeader)>;             // the packets in the bytes
pub uninterp spec fn vx_bad<T>(b: Seq<u8>) -> bool;                              // a foreign packet among them
pub struct IncomeMessage<T> { pub header: PackageHeader, pub msg: T }
impl<T> Buffer<T> {
    pub uninterp spec fn pend(&self) -> Seq<u8>;
    pub uninterp spec fn q(&self) -> Seq<(T, PackageHeader)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.pend() == Seq::<u8>::empty(), r.q() == Seq::<(T, PackageHeader)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn chunk(&mut self, buf: &[u8], uuid: Option<String>) -> (r: Result<(), ReadError>)
        ensures final(self).pend() == vx_rest::<T>(old(self).pend() + buf@), final(self).q() == old(self).q() + vx_out::<T>(old(self).pend() + buf@),
            r is Ok <==> !vx_bad::<T>(old(self).pend() + buf@) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<IncomeMessage<T>>)
        ensures final(self).pend() == old(self).pend(),
            match r { None => old(self).q().len() == 0 && final(self).q() == old(self).q(),
                      Some(m) => old(self).q().len() > 0 && (m.msg, m.header) == old(self).q()[0] && final(self).q() == old(self).q().skip(1) } { unimplemented!() }
}
"""
    return o


def rules(pd, spec="", lemmas=""):
    I = pd + "/implementation/"
    src = []

    def add(path, prefix, pre, post="", **kw):
        src.append(dict({"path": path, "prefix": prefix, "pre": pre, "post": post}, **kw))

    add(I + "protocol/mod.rs", "protocol::", "pub mod protocol { " + USE, prot_post() + "}", types_only=True, erase_async=False, mod_prelude="use vstd::prelude::*; use crate::vx::*;",
        drop=["protocol::struct Buffer", "protocol::struct IncomeMessage"], stub_types=True)
    add(I + "consumer/mod.rs", "consumer::", "pub mod consumer { " + USE)
    add(I + "consumer/identification.rs", "identification::", "pub mod identification { " + USE, "} }")
    add(I + "scope/mod.rs", "scope::", "pub mod scope { " + USE, "}", subst=[["Pin<Box<dyn Future<Output = ()>>>", "VxDeferred"]])
    for kind in ("handlers", "emitters", "beacons"):
        up = "beacons_callers" if kind == "beacons" else kind
        add(I + kind + "/mod.rs", up + "::", "pub mod %s { " % up + USE)
        names = sorted(f[:-3] for f in os.listdir(I + kind) if f.endswith(".rs") and f != "mod.rs")
        for i, n in enumerate(names):
            add(I + kind + "/%s.rs" % n, "%s::%s::" % (up, n), "pub mod %s { " % n + USE, "}" + ("}" if i == len(names) - 1 else ""))
    for kind in ("responses", "events", "beacons"):
        names = sorted(f[:-3] for f in os.listdir(pd + "/" + kind) if f.endswith(".rs") and f != "mod.rs")
        for i, n in enumerate(names):
            add(pd + "/" + kind + "/%s.rs" % n, "%s::%s::" % (kind, n), ("pub mod %s { " % kind + USE + "use super::*; " if i == 0 else "") + "pub mod %s { " % n + USE, "}" + ("}" if i == len(names) - 1 else ""))
    add(I + "mod.rs", "", "unsafe impl Structural for uuid::Uuid {} unsafe impl Structural for producer::ProducerIdentificationStrategy {} unsafe impl Structural for producer::ConsumerErrorHandelingStrategy {} use crate::vx::*; use crate::tokio::sync::mpsc::{channel, unbounded_channel, UnboundedSender, UnboundedReceiver, Sender, Receiver}; use crate::tokio::sync::oneshot; use context::Context; use std::marker::PhantomData; use crate::tokio::sync::CancellationToken; ", "")
    stub = []
    for s in src:
        s.setdefault("erase_async", True)
        s.setdefault("inline_maps", True)
        if s["path"] == I + "mod.rs":
            s["selects"] = s["inline_ctor_maps"] = True
            s["world_methods"] = ["cancel", "observer"]
        if s["prefix"].startswith(("responses::", "events::", "beacons::")):
            stub += [s["prefix"] + "fn response", s["prefix"] + "fn emit"]
    return {
        "header": open(os.path.join(SP, "rt_common.rs")).read() + open(os.path.join(SP, "run_std.rs")).read() + spec + lemmas, "footer": "\n} // verus!\n",
        "loops_need_rules": False, "publish": True, "drop_derives": ["Debug", "Error", "PartialEq", "Clone"], "drop_attrs": ["error", "allow", "path"],
        "drop_uses": ["log::", "thiserror", "std::collections", "std::marker", "tokio::{", "tokio_util", "futures", "super::context", "context::Context", "std::{", "producerasprod"],
        "mod_prelude": "use vstd::prelude::*;",
        "methods": {"clone": "vx_clone", "to_string": "vx_to_string"},
        "paths": {"String::from": "vx_string_from", "drop": "vx_dropped"},
        "chains": {"iter.any": "vx_iter_any"},
        "text_operands": ["hash::"], "macros": {"format": "vx_formatm", "debug": "vx_logm", "warn": "vx_logm", "trace": "vx_logm", "error": "vx_logm", "panic": "unimplemented"},
        "subst": [["&mut dyn PackingStruct", "&mut (impl PackingStruct)"], [".as_deref_mut()", ".vx_as_deref_mut()"]],
        "sources": src, "stub": stub, "items": items()}


LOG = "final(vx_w).log"
OLD = "old(vx_w).log"
M = "vx_cs(%s.consumers@)"
V = "vx_vis(vx_cs(%s.consumers@))"
USER = {"attrs": "#[verifier::external_body]", "ret": "r"}
BU = "broadcast use vx_laws;"
BCASTS = {"kind": "for", "iter": "vx_it", "before": "let ghost vx_b = broadcasting@; let ghost vx_l2 = vx_w.log; assert(vx_bs(vx_b).len() == vx_b.len() && vx_packed(vx_bs(vx_b)));", "clauses": """invariant
    vx_it.seq().len() == vx_b.len(), forall|i: int| 0 <= i < vx_b.len() ==> *(#[trigger] vx_it.seq()[i]) == vx_b[i],
    vx_w.log == vx_bcasts_n(vx_l2, vx_bs(vx_b), vx_it.index@ as int),"""}


def user(call, extra=""):
    return dict(USER, clauses="ensures %s == vx_user(vx_called(%s, %s)), %s" % (LOG, OLD, call, extra.replace("@L", "vx_called(%s, %s)" % (OLD, call))))


def items():
    I = {}
    for e in ("ProducerIdentificationStrategy", "ConsumerErrorHandelingStrategy"):
        I["producer::enum " + e] = {"attrs": "#[derive(PartialEq, Eq)]"}
    # ---- identification
    D = "identification::impl Identification::fn "
    I[D + "new"] = {"ret": "r", "clauses": """ensures r == (Identification { uuid, producer_indentification_strategy: options.producer_indentification_strategy, discredited: false, tx_ident_change, key: None, assigned: None })"""}
    I[D + "uuid"] = {"ret": "r", "clauses": "ensures r == self.uuid"}
    I[D + "set_key"] = {"ret": "r", "clauses": "ensures r is Ok ==> vx_put(self.tx_ident_change, IdentificationChannel::Key(self.uuid, key, overwrite))"}
    I[D + "set_assign"] = {"ret": "r", "clauses": "ensures r is Ok ==> vx_put(self.tx_ident_change, IdentificationChannel::Assigned(self.uuid, key, overwrite))"}
    I[D + "key"] = {"clauses": "ensures *final(self) == (Identification { key: vx_key(old(self).key, key, overwrite), ..*old(self) })"}
    I[D + "assign"] = {"clauses": "ensures *final(self) == (Identification { assigned: vx_assign(old(self).assigned, key, overwrite), ..*old(self) })"}
    I[D + "assigned"] = {"ret": "r", "clauses": "ensures r == vx_assigned(*self)"}
    I[D + "has_key"] = {"ret": "r", "clauses": "ensures r == (self.key is Some)"}
    I[D + "discredited"] = {"clauses": "ensures *final(self) == (Identification { discredited: true, ..*old(self) })"}
    I[D + "is_discredited"] = {"ret": "r", "clauses": "ensures r == self.discredited"}
    # ---- filters
    F = "identification::impl Filter<'c>::fn "
    I[F + "new"] = {"ret": "r", "clauses": "ensures r.consumers@ == consumers@"}
    I[F + "all"] = {"ret": "r", "clauses": "ensures r@.no_duplicates(), forall|u: Uuid| #[trigger] r@.contains(u) <==> self.consumers@.dom().contains(u)"}
    I[F + "except"] = {"ret": "r", "clauses": "ensures r@.no_duplicates(), forall|u: Uuid| #[trigger] r@.contains(u) <==> self.consumers@.dom().contains(u) && u != *uuid",
                       "closures": [{"ret": "vxr: bool", "clauses": "ensures vxr == (**${c0} != *uuid)"}]}
    I[F + "exclude"] = {"ret": "r", "clauses": "ensures r@.no_duplicates(), forall|u: Uuid| #[trigger] r@.contains(u) <==> self.consumers@.dom().contains(u) && !uuids@.contains(u)",
                        "closures": [{"ret": "vxr: bool", "clauses": "ensures vxr == !uuids@.contains(**${c0})"}, {"ret": "vxr: bool", "clauses": "ensures vxr == (*${c0} == **uuid)"}]}
    I[F + "filter"] = {"ret": "r", "clauses": """requires forall|i: &Identification| #[trigger] cb.requires((i,)),
ensures forall|u: Uuid| #[trigger] r@.contains(u) ==> exists|k: Uuid| #[trigger] self.consumers@.dom().contains(k) && self.consumers@[k].uuid == u && cb.ensures((&self.consumers@[k].identification,), true),
    forall|k: Uuid| #[trigger] self.consumers@.dom().contains(k) ==> r@.contains(self.consumers@[k].uuid) || cb.ensures((&self.consumers@[k].identification,), false)""",
                       "closures": [{"ret": "vxr: bool", "clauses": "ensures cb.ensures((&${c0}.identification,), vxr)"}, {"ret": "vxr: Uuid", "clauses": "ensures vxr == ${c0}.uuid"}]}
    # ---- consumers
    C = "consumer::impl Consumer::fn "
    I[C + "new"] = {"ret": "r", "clauses": """ensures vx_c(r) == vx_new(uuid, *options, tx_ident_change)"""}
    I[C + "accept_hash"] = {"clauses": "ensures *final(self) == (Consumer { hash_accepted: true, ..*old(self) })"}
    I[C + "is_hash_accepted"] = {"ret": "r", "clauses": "ensures r == self.hash_accepted"}
    I[C + "is_confirmed"] = {"ret": "r", "clauses": "ensures r == self.confirmed"}
    I[C + "confirm"] = {"clauses": "ensures *final(self) == (Consumer { confirmed: true, ..*old(self) })"}
    I[C + "get_uuid"] = {"ret": "r", "clauses": "ensures r == self.uuid"}
    I[C + "get_identification"] = {"ret": "r", "clauses": "ensures *r == self.identification"}
    I[C + "get_mut_identification"] = {"ret": "r", "clauses": "ensures *r == old(self).identification, *final(self) == (Consumer { identification: *final(r), ..*old(self) })"}
    I[C + "key"] = {"ret": "r", "clauses": """ensures r@ == vx_disp(&old(self).uuid), *final(self) == (Consumer { identification: identification::Identification { key: vx_key(old(self).identification.key, *key, overwrite), ..old(self).identification }, ..*old(self) })"""}
    I[C + "assign"] = {"clauses": "ensures *final(self) == (Consumer { identification: identification::Identification { assigned: vx_assign(old(self).identification.assigned, key, overwrite), ..old(self).identification }, ..*old(self) })"}
    I[C + "chunk"] = {"ret": "r", "clauses": """ensures final(self).buffer.pend() == protocol::vx_rest::<protocol::AvailableMessages>(old(self).buffer.pend() + buffer@),
    final(self).buffer.q() == old(self).buffer.q() + protocol::vx_out::<protocol::AvailableMessages>(old(self).buffer.pend() + buffer@), r is Ok <==> !protocol::vx_bad::<protocol::AvailableMessages>(old(self).buffer.pend() + buffer@),
    *final(self) == (Consumer { buffer: final(self).buffer, ..*old(self) })"""}
    I[C + "get_messages"] = {"ret": "r", "clauses": """ensures r@ == old(self).buffer.q(), final(self).buffer.q() == Seq::<(protocol::AvailableMessages, protocol::PackageHeader)>::empty(), final(self).buffer.pend() == old(self).buffer.pend(), *final(self) == (Consumer { buffer: final(self).buffer, ..*old(self) })""",
        "loops": [{"kind": "while", "clauses": """invariant msgs@ + self.buffer.q() == old(self).buffer.q(), self.buffer.pend() == old(self).buffer.pend(), *self == (Consumer { buffer: self.buffer, ..*old(self) }),
ensures msgs@ == old(self).buffer.q(), self.buffer.q().len() == 0, self.buffer.pend() == old(self).buffer.pend(), *self == (Consumer { buffer: self.buffer, ..*old(self) }),
decreases self.buffer.q().len()""", "start": "let ghost vx_m = msgs@; let ghost vx_q = self.buffer.q();"}]}
    # ---- scopes
    for S in ("Scope", "AnonymousScope"):
        i = "" if S[0] == "A" else "identification: identification, "
        I[f"scope::impl {S}<'a,E,C>::fn new"] = {"ret": "r", "clauses": f"ensures r.deferred is None, r.control == control, r.filter == filter{', r.identification == identification' if i else ''}"}
        I[f"scope::impl {S}<'a,E,C>::fn deferred"] = {"clauses": "ensures final(self).deferred == Some(cb)"}
        I[f"scope::impl {S}<'a,E,C>::fn call"] = {"clauses": f"ensures final(self).deferred is None, {LOG} == if old(self).deferred is Some {{ vx_user({OLD}.push(VxEv::Deferred)) }} else {{ {OLD} }}"}
    # ---- what the user's code does
    SC = "*scope.identification, " + M % "scope.filter"
    for n in REQS:
        I[f"responses::{n}::fn response"] = user("VxCall::%s(*old(scope).identification, %s, *request)" % (camel(n), V % "old(scope).filter"), f"r == vx_r_{n}(@L), final(scope).deferred is Some <==> vx_defers(@L),")
    for n in BEACONS:
        I[f"beacons::{n}::fn emit"] = user("VxCall::%s(*old(scope).identification, %s, *beacon)" % (camel(n), V % "old(scope).filter"), "r is Ok <==> vx_user_ok(@L), final(scope).deferred is Some <==> vx_defers(@L),")
    for n in EVENTS:
        I[f"events::{n}::fn emit"] = user("VxCall::%s(%s, event)" % (camel(n), V % "old(scope).filter"), f"r == vx_r_{n}(@L), final(scope).deferred is Some <==> vx_defers(@L),")
    for n in ("connected", "disconnected"):
        I[f"events::{n}::fn emit"] = user("VxCall::%s(*old(scope).identification, %s)" % (camel(n), V % "old(scope).filter"), f"r == vx_r_{n}(@L), final(scope).deferred is Some <==> vx_defers(@L),")
    for n in ("ready", "shutdown"):
        I[f"events::{n}::fn emit"] = user("VxCall::%s" % camel(n), "r is Ok <==> vx_user_ok(@L),")
        I[f"emitters::{n}::fn emit"] = {"ret": "r", "clauses": f"ensures {LOG} == vx_user(vx_called({OLD}, VxCall::{camel(n)})), r is Ok <==> vx_user_ok(vx_called({OLD}, VxCall::{camel(n)}))"}
    I["events::error::fn emit"] = user("VxCall::Error(vx_kind(error), uuid, vx_oi(identification))", "r is Ok <==> vx_user_ok(@L),")
    # ---- handlers, emitters, beacons
    for m in ("handlers", "emitters", "beacons_callers"):
        I[m + "::fn pack"] = {"ret": "r", "clauses": "ensures match r { Ok(b) => old(msg).vx_pk(*sequence, vx_id(*uuid)) == Some(vx_body(b@)), Err(_) => old(msg).vx_pk(*sequence, vx_id(*uuid)) is None }"}
    I["emitters::fn unbound_pack"] = {"ret": "r", "clauses": "ensures match r { Ok(b) => old(msg).vx_pk(*sequence, None) == Some(vx_body(b@)), Err(_) => old(msg).vx_pk(*sequence, None) is None }"}
    for m in ("handlers", "emitters"):
        I[m + "::fn broadcast"] = {"ret": "r", "clauses": f"ensures r is Ok, {LOG} == vx_bcast({OLD}, old(broadcasting).0@, vx_body(old(broadcasting).1@))"}
    for n in REQS:
        I[f"handlers::{n}::fn process"] = {"ret": "r", "clauses": f"ensures ({LOG}, r is Ok) == vx_{n}({OLD}, *identification, {M % 'filter'}, *request, sequence)", "start": BU + f" proof {{ reveal(vx_{n}); }}", "loops": [] if n == "ping" else [BCASTS]}
    for n in BEACONS:
        I[f"beacons_callers::{n}::fn emit"] = {"ret": "r", "clauses": f"ensures ({LOG}, r is Ok) == vx_beacon(vx_called({OLD}, VxCall::{camel(n)}(*identification, {V % 'filter'}, *beacon)), *identification, sequence)", "start": BU + " proof { reveal(vx_beacon); }"}
    for n in EVENTS:
        I[f"emitters::{n}::fn emit"] = {"ret": "r", "clauses": f"ensures ({LOG}, r is Ok) == vx_{n}({OLD}, {M % 'filter'}, event)", "start": BU + f" proof {{ reveal(vx_{n}); }}", "loops": [BCASTS]}
    for n in ("connected", "disconnected"):
        I[f"emitters::{n}::fn emit"] = {"ret": "r", "clauses": f"ensures ({LOG}, r is Ok) == vx_{n}({OLD}, *identification, {M % 'filter'})", "start": BU + f" proof {{ reveal(vx_{n}); }}", "loops": [BCASTS]}
    I["emitters::error::fn emit"] = {"ret": "r", "clauses": f"ensures ({LOG}, r is Ok) == vx_emit_error({OLD}, vx_kind(error), uuid, vx_oi(identification))", "start": "proof { reveal(vx_emit_error); }"}
    # ---- the producer
    P = "producer::"
    for n in EVENTS:
        I[P + "impl Events::fn " + n] = {"ret": "r", "clauses": f"ensures r is Ok ==> vx_put(self.tx_events, Event::{camel(n)}(event))"}
    I[P + "impl Default for Options::fn default"] = {"ret": "r", "clauses": "ensures r.producer_indentification_strategy is Log, r.consumer_error_handeling_strategy is EmitErrorAndDisconnect"}
    I[P + "impl Options::fn new"] = {"ret": "r", "clauses": "ensures r.producer_indentification_strategy is Log, r.consumer_error_handeling_strategy is EmitErrorAndDisconnect"}
    for o in ("producer_indentification_strategy", "consumer_error_handeling_strategy"):
        I[P + "impl Options::fn " + o] = {"ret": "r", "clauses": f"ensures *r == (Options {{ {o}: value, ..*old(self) }}), *final(self) == *final(r)"}
    K = P + "impl Control<E,C>::fn "
    I[K + "disconnect"] = {"ret": "r", "clauses": f"ensures {LOG} == {OLD}.push(VxEv::Disc(uuid)), r is Ok <==> vx_ctl_ok({LOG})"}
    I[K + "send"] = {"ret": "r", "clauses": f"ensures {LOG} == {OLD}.push(VxEv::Send(uuid, vx_body(buffer@))), r is Ok <==> vx_ctl_ok({LOG})"}
    I[K + "broadcast"] = {"ret": "r", "clauses": f"ensures r is Ok, {LOG} == vx_bcast({OLD}, uuids@, vx_body(buffer@))",
        "loops": [{"kind": "for", "iter": "vx_it", "clauses": """invariant vx_it.seq().len() == uuids@.len(), forall|i: int| 0 <= i < uuids@.len() ==> *(#[trigger] vx_it.seq()[i]) == uuids@[i],
    vx_w.log == vx_bcast_n(old(vx_w).log, uuids@, vx_body(buffer@), vx_it.index@ as int),"""}]}
    I[P + "fn add_connection"] = {"ret": "r", "start": BU, "clauses": f"""requires vx_keyed(vx_cs(old(consumers)@))
ensures vx_keyed(vx_cs(final(consumers)@)), vx_cs(old(consumers)@).dom().contains(uuid) ==> r is Err && {LOG} == {OLD} && vx_cs(final(consumers)@) == vx_cs(old(consumers)@),
    !vx_cs(old(consumers)@).dom().contains(uuid) ==> {{
        let c = vx_new(uuid, *options, tx_ident_change);
        &&& {LOG} == vx_connected({OLD}, c.ident, vx_cs(old(consumers)@)).0
        &&& vx_cs(final(consumers)@) == vx_cs(old(consumers)@).insert(uuid, c)
        &&& r is Ok ==> vx_put(tx_confirm, uuid) }}"""}
    I[P + "fn remove_connection"] = {"ret": "r", "start": BU, "clauses": f"""requires vx_keyed(vx_cs(old(consumers)@))
ensures r is Ok, vx_keyed(vx_cs(final(consumers)@)), vx_cs(final(consumers)@) == vx_cs(old(consumers)@).remove(uuid),
    {LOG} == if vx_cs(old(consumers)@).dom().contains(uuid) {{ vx_disconnected({OLD}, vx_cs(old(consumers)@)[uuid].ident, vx_cs(final(consumers)@)).0 }} else {{ {OLD} }}"""}
    I[P + "fn disconnect"] = {"ret": "r", "start": "proof { reveal(vx_disc); }", "clauses": f"ensures (VxS {{ c: vx_c(*final(consumer)), l: {LOG}, ok: r is Ok }}) == vx_disc(VxS {{ c: vx_c(*old(consumer)), l: {OLD}, ok: true }}, uuid)"}
    I[P + "fn responsing_err"] = {"ret": "r", "start": "proof { reveal(vx_failed); reveal(vx_failed_none); }", "clauses": f"""ensures match *old(consumer) {{
    None => ({LOG}, r is Ok) == vx_failed_none({OLD}, uuid, *options),
    Some(c) => *final(consumer) is Some && *final(final(consumer)->Some_0) == *final(old(consumer)->Some_0) && (VxS {{ c: vx_c(*(final(consumer)->Some_0)), l: {LOG}, ok: r is Ok }}) == vx_failed(VxS {{ c: vx_c(*c), l: {OLD}, ok: true }}, uuid, *options) }}"""}
    I[P + "fn process_received_data"] = {"ret": "r", "attrs": "#[verifier::spinoff_prover]", "start": BU + " proof { reveal(vx_received); }", "clauses": f"""requires vx_keyed(vx_cs(old(consumers)@))
ensures vx_keyed(vx_cs(final(consumers)@)), vx_cs(final(consumers)@) == vx_received(vx_cs(old(consumers)@), {OLD}, uuid, *options, buffer@).m,
    {LOG} == vx_received(vx_cs(old(consumers)@), {OLD}, uuid, *options, buffer@).l, r is Ok <==> vx_received(vx_cs(old(consumers)@), {OLD}, uuid, *options, buffer@).ok""",
        "loops": [{"kind": "for", "iter": "vx_it", "before": "let ghost vx_m = vx_cs(old(consumers)@);", "clauses": """invariant
    vx_it.seq().len() == messages@.len(), forall|i: int| 0 <= i < messages@.len() ==> *(#[trigger] vx_it.seq()[i]) == messages@[i],
    vx_m == vx_cs(old(consumers)@), vx_m.dom().contains(uuid), vx_keyed(vx_m), vx_cs(consumers@).dom().contains(uuid), vx_keyed(vx_cs(consumers@)), vx_cs(consumers@) == vx_m.insert(uuid, vx_cs(consumers@)[uuid]),
    vx_received(vx_m, old(vx_w).log, uuid, *options, buffer@).m == vx_m.insert(uuid, vx_all(VxS { c: vx_cs(consumers@)[uuid], l: vx_w.log, ok: true }, vx_m, uuid, *options, messages@, vx_it.index@ as int).c), vx_received(vx_m, old(vx_w).log, uuid, *options, buffer@).l == vx_all(VxS { c: vx_cs(consumers@)[uuid], l: vx_w.log, ok: true }, vx_m, uuid, *options, messages@, vx_it.index@ as int).l, vx_received(vx_m, old(vx_w).log, uuid, *options, buffer@).ok == vx_all(VxS { c: vx_cs(consumers@)[uuid], l: vx_w.log, ok: true }, vx_m, uuid, *options, messages@, vx_it.index@ as int).ok,""",
        "start": BU + """ let ghost vx_n = vx_it.index@ as int; let ghost vx_s = VxS { c: vx_cs(consumers@)[uuid], l: vx_w.log, ok: true };
        let ghost vx_s1 = vx_msg(vx_s, vx_m.insert(uuid, vx_s.c), uuid, *options, messages@[vx_n].0, messages@[vx_n].1);
        proof { vx_all_step(vx_s, vx_m, uuid, *options, messages@, vx_n); vx_all_step(vx_s1, vx_m, uuid, *options, messages@, vx_n + 1); reveal(vx_msg); }""",
        "end": "assert((VxS { c: vx_cs(consumers@)[uuid], l: vx_w.log, ok: true }) == vx_s1);"}]}
    LIFE = "vx_life(vx_l0(old(vx_w).log), tx_ident_change, *options, vx_es)"
    I[P + "fn listener"] = {"ret": "r", "start": BU, "attrs": "#[verifier::exec_allows_no_decreases_clause]", "clauses": f"""ensures r.0 == control, vx_lived({OLD}, {LOG}, r.2 is Ok, *options)""",
        "loops": [
            {"kind": "loop", "before": "let ghost mut vx_es: Seq<VxIn> = Seq::empty();", "clauses": f"""invariant_except_break vx_res is None, vx_keyed(vx_cs(consumers@)), {LIFE}.m == vx_cs(consumers@), {LIFE}.l == vx_w.log, {LIFE}.ok, !{LIFE}.stop, !{LIFE}.bad,
ensures vx_res is Some, vx_lend({LIFE}, vx_es, vx_w.log, vx_res->0 is Ok),"""},
            {"kind": "while", "clauses": f"""invariant_except_break vx_res is None, vx_keyed(vx_cs(consumers@)), {LIFE}.m == vx_cs(consumers@), {LIFE}.l == vx_w.log, {LIFE}.ok, !{LIFE}.stop, !{LIFE}.bad,
ensures vx_res is None, vx_lend({LIFE}, vx_es, vx_w.log, true),""",
             "start": BU + " let ghost vx_x = vx_w.log.last()->Got_0; proof { vx_life_push(vx_l0(old(vx_w).log), tx_ident_change, *options, vx_es, vx_x); reveal(vx_lstep); vx_es = vx_es.push(vx_x); }"}]}
    I[K + "shutdown"] = {"ret": "r", "clauses": f"""ensures !vx_ctl_ok({OLD}.push(VxEv::Ask(wait))) ==> r is Err && {LOG} == {OLD}.push(VxEv::Ask(wait)),
    vx_ctl_ok({OLD}.push(VxEv::Ask(wait))) && !wait ==> r is Ok && {LOG} == {OLD}.push(VxEv::Ask(wait)) && vx_sent(self.tx_shutdown, None),
    vx_ctl_ok({OLD}.push(VxEv::Ask(wait))) && wait ==> (r is Ok <==> vx_ctl_ok({LOG})) && exists|t: oneshot::Sender<()>| vx_seen(Some(t)) && vx_sent(self.tx_shutdown, Some(t)) && {LOG} == {OLD}.push(VxEv::Ask(wait)).push(VxEv::Wait(t.id()))"""}
    I[P + "fn run"] = {"ret": "r", "start": BU, "clauses": f"ensures vx_run({OLD}, {LOG}, r, options)"}
    return I


def camel(n):
    return "".join(x.title() for x in n.split("_"))
