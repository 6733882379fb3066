"""Contracts for the workflow front end of the CLI (beacons, events, requests, configuration, store, parser)."""
import os
import vk, front

SP = os.path.join(vk.ROOT, "spec")
SEQS = [("vx_bcs", "Broadcast", "VxBc"), ("vx_acts", "Action", "VxAct"), ("vx_evts", "Event", "VxEvtC"), ("vx_reqs", "Request", "VxReqC")]
FORMATM = """macro_rules! vx_formatm {
    ("{}{}{}", $a:expr, $b:expr, $c:expr $(,)?) => { vx_cat3(&$a, &$b, &$c) };
    ("{}.{}", $a:expr, $b:expr $(,)?) => { vx_cat2(&$a, &$b) };
    ($($t:tt)*) => { vx_text() } }
macro_rules! vx_printm { ($($t:tt)*) => { () } }
"""
BU = "broadcast use vx_laws;"
TXT = ' proof { reveal_strlit(""); reveal_strlit("."); }'


def prelude():
    t = open(os.path.join(SP, "front_std.rs")).read()
    t = t.replace("macro_rules! vx_formatm { ($($t:tt)*) => { vx_text() } }\n", FORMATM)
    t += open(os.path.join(SP, "flow_spec.rs")).read()
    return t.replace("// @@SEQS@@", front.seqs(SEQS, more=()))


def may(ty, table):
    """which expectations an entity may have in a phase"""
    return "spec fn vx_may(ph: " + ty + ", x: EExpectation) -> bool { match ph { " + " ".join(ty + "::%s => %s," % (p, " || ".join("x is " + w for w in ws.split()) if not ws.startswith("?") else ws[1:]) for p, ws in table) + " } }"


def at(word, other="Word"):
    f = lambda ws: " || ".join("x is " + w for w in ws.split())
    return "?if r.at is Word { %s } else { %s }" % (f(word), f(other))


IS_IN = {"ret": "r", "clauses": "ensures r == src@.contains(*target)", "closures": [{"clauses": "ensures vxr == (*${c0} == *target)"}]}
EXP = "(forall|x: EExpectation| #[trigger] self.expectation@.contains(x) ==> vx_may(%s.ph, x))"


def over(seq):
    return f"vx_it.seq().len() == {seq}.len(), forall|i: int| 0 <= i < {seq}.len() ==> *(#[trigger] vx_it.seq()[i]) == {seq}[i],"


def known_loop(seq, what, extra=""):
    """every element seen so far is known to the protocol"""
    return {"kind": "for", "iter": "vx_it", "clauses": f"invariant {over(seq)} {extra} forall|i: int| 0 <= i < vx_it.index@ ==> {what},"}


def items():
    I = {}
    for m in ("beacon", "event", "request", "config"):
        I[m + "::enum EExpectation"] = {"attrs": "#[derive(Eq)]"}
        I[m + "::fn is_in"] = IS_IN
    I["enum ENext"] = {"drop_derives": ["Clone"]}
    I["enum Target"] = {"attrs": "#[derive(Structural, Eq)]"}
    I["trait EntityParser"] = {"members": "spec fn vx_is(&self, e: VxEnt) -> bool;"}
    I["trait EntityParser::fn next"] = {"ret": "r", "clauses": """requires match vx_tok(entity) { Some(VxTok::Word(x)) => x.len() > 0, _ => true }
ensures forall|e: VxEnt| #[trigger] old(self).vx_is(e) && !vx_done(e) && r is Ok ==> r->Ok_0 == vx_off(entity) && vx_tok(entity) is Some && match vx_step_ent(e, vx_tok(entity)->0, old(protocol).w()) {
    Some(x) => final(self).vx_is(x.0) && final(protocol).w() == x.1, None => false },"""}
    I["trait EntityParser::fn closed"] = {"ret": "r", "clauses": "ensures forall|e: VxEnt| #[trigger] self.vx_is(e) ==> r == vx_done(e)"}
    I["trait EntityParser::fn extract"] = {"ret": "r", "clauses": "ensures forall|e: VxEnt| #[trigger] old(self).vx_is(e) ==> vx_out(r, e)"}
    I["trait EntityParser::fn open"] = {"clauses": "requires word@.len() > 0"}
    for m, t in (("beacon", "Beacons"), ("event", "Event"), ("request", "Request"), ("config", "Config")):
        I[f"{m}::impl EntityParser for {t}::fn next"] = {"start": BU + TXT, "attrs": "#[verifier::spinoff_prover]"}
    CL = "final(self).closed && final(self).pending is Nothing && final(self).expectation@.len() == 0"
    # ---- beacons
    B = "beacon::"
    I[B + "impl Broadcast::fn new"] = {"ret": "r", "clauses": "ensures r.v() == (VxBc { reference: reference@, optional })"}
    I[B + "impl Broadcast::fn validate"] = {"ret": "r", "clauses": "ensures r == vx_known(protocol.w(), self.v().reference)"}
    I[B + "impl Beacons::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures r.vx_is(VxEnt::Bcs(vx_bcs0()))"}
    I[B + "impl Beacons::fn close"] = {"ret": "r", "start": BU, "clauses": "ensures r is Ok ==> final(self).beacons@ == old(self).beacons@ && old(self).beacons@.len() > 0 && vx_allknown(protocol.w(), vx_bcs(old(self).beacons@)) && " + CL,
        "loops": [known_loop("self.beacons@", "vx_known(protocol.w(), (#[trigger] vx_bcs(self.beacons@)[i]).reference)", "*self == *old(self),")]}
    I[B + "impl Beacons::fn next_beacon"] = {"ret": "r", "start": BU, "clauses": "ensures match r { None => old(self).beacons@.len() == 0 && final(self).beacons@ == old(self).beacons@, Some(b) => old(self).beacons@.len() > 0 && b == old(self).beacons@[0] && final(self).beacons@ == old(self).beacons@.skip(1) }"}
    I[B + "impl EntityParser for Beacons"] = {"members": "closed spec fn vx_is(&self, e: VxEnt) -> bool { match e { VxEnt::Bcs(b) => vx_bcs(self.beacons@) == b.list && self.closed == (b.ph is Closed) && " + EXP % "b" + " && match self.pending { Pending::Broadcast(p) => b.ph is Ref && b.ph->Ref_0.path == p@ && (b.ph->Ref_0.at is Word ==> p@.len() > 0), Pending::Nothing => !(b.ph is Ref) }, _ => false } }"}
    I[B + "impl EntityParser for Beacons::fn open"] = {"ret": "r", "clauses": "ensures r is Some == (word@ == \"@beacons\"@), r is Some ==> r->0.vx_is(VxEnt::Bcs(vx_bcs0()))"}
    # ---- events
    E = "event::"
    I[E + "impl Event::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures r.vx_is(VxEnt::Evt(vx_evt0(reference@)))"}
    I[E + "impl Event::fn close"] = {"ret": "r", "start": BU, "clauses": "ensures r is Ok ==> final(self).v() == old(self).v() && vx_evt_ok(old(self).v(), protocol.w()) && " + CL,
        "loops": [known_loop("self.broadcasts@", "vx_known(protocol.w(), (#[trigger] vx_bcs(self.broadcasts@)[i]).reference)", "*self == *old(self),")]}
    I[E + "impl Event::fn get_reference"] = {"ret": "r", "clauses": "ensures match r { Ok(x) => self.v().reference == Some(x@), Err(_) => self.v().reference is None }"}
    I[E + "impl Event::fn is_default"] = {"ret": "r", "clauses": "ensures r == (self.v().reference is Some && vx_default_event(self.v().reference->0))"}
    PB = "p.reference@ == %s.path && (%s.at is Word ==> %s.path.len() > 0)"
    I[E + "impl EntityParser for Event"] = {"members": "closed spec fn vx_is(&self, e: VxEnt) -> bool { match e { VxEnt::Evt(b) => self.v() == b.c && self.closed == (b.ph is Closed) && " + EXP % "b"
        + " && (b.c.reference is None <==> b.ph is Ref) && (b.ph is Ref ==> b.c.casts.len() == 0) && match self.pending { Pending::Reference(p) => b.ph is Ref && b.ph->Ref_0.path == p@,"
        + " Pending::Broadcast(p) => match b.ph { VxEvtPh::Cast(r) => !p.optional && " + PB % ("r", "r", "r") + ", VxEvtPh::Opt(r) => p.optional && p.reference@ == r.path && r.path.len() > 0, _ => false },"
        + " Pending::Nothing => b.ph is First || b.ph is Next || b.ph is Closed }, _ => false } }"}
    I[E + "impl EntityParser for Event::fn open"] = {"ret": "r", "slices": {"range": "vx_range"}, "start": "proof { vx_bytes_le(word@, word@.len() as int); if word@.len() > 0 { vx_bytes_step(word@, 0); assert(word@.subrange(1, word@.len() as int) =~= word@.skip(1)); assert(vx_at_byte(word@, 1, 1) || word@[0] != '@'); assert(vx_at_byte(word@, vx_bytes(word@, word@.len() as int), word@.len() as int)); } }",
        "clauses": "ensures r is Some == (word@.len() > 0 && word@[0] == '@'), r is Some ==> r->0.vx_is(VxEnt::Evt(vx_evt0(word@.skip(1))))"}
    # ---- requests
    R = "request::"
    A0 = "VxAct { conclusion: None, response: None, casts: Seq::<VxBc>::empty() }"
    I[R + "impl Action::fn new"] = {"ret": "r", "start": BU + TXT, "clauses": f"ensures r.v() == ({A0}), r.current@ == Seq::<char>::empty(), !r.optional"}
    I[R + "impl Action::fn add_broadcast"] = {"ret": "r", "start": BU, "closures": [{"clauses": "ensures vxr == (${c0}.reference@ == broadcast.reference@)"}],
        "clauses": "ensures r is Ok ==> !vx_hascast(old(self).v().casts, broadcast.v().reference) && final(self).v() == (VxAct { casts: old(self).v().casts.push(broadcast.v()), ..old(self).v() }) && final(self).current@ == old(self).current@ && final(self).optional == old(self).optional"}
    I[R + "impl Action::fn valid"] = {"ret": "r", "clauses": "ensures r is Ok ==> self.v().response is Some && self.current@.len() == 0"}
    for g, f in (("conclusion", "conclusion"), ("response", "response")):
        I[R + "impl Action::fn get_" + g] = {"ret": "r", "clauses": f"ensures match r {{ Ok(x) => self.v().{f} == Some(x@), Err(_) => self.v().{f} is None }}"}
    I[R + "impl Request::fn new"] = {"ret": "r", "start": BU, "clauses": "requires request@.len() > 0\nensures r.vx_is(VxEnt::Req(vx_req0(request@)))"}
    I[R + "impl Request::fn close"] = {"ret": "r", "start": BU, "clauses": "ensures r is Ok ==> final(self).v() == old(self).v() && vx_req_ok(old(self).v(), protocol.w()) && " + CL,
        "loops": [known_loop("self.broadcasts@", "vx_known(protocol.w(), #[trigger] vx_strs(self.broadcasts@)[i])", "*self == *old(self),"),
                  known_loop("self.actions@", "vx_act_ok(#[trigger] vx_acts(self.actions@)[i], self.actions@.len() == 1, protocol.w())", "*self == *old(self), self.request is Some && vx_known(protocol.w(), self.request->0@), match self.error { Some(e) => vx_known(protocol.w(), e@), None => self.actions@.len() == 0 }, forall|i: int| 0 <= i < self.broadcasts@.len() ==> vx_known(protocol.w(), #[trigger] vx_strs(self.broadcasts@)[i]),"),
                  known_loop("action.broadcast@", "vx_known(protocol.w(), (#[trigger] vx_bcs(action.broadcast@)[i]).reference)", "*self == *old(self),")]}
    I[R + "impl Request::fn get_request"] = {"ret": "r", "clauses": "ensures match r { Ok(x) => self.v().request == Some(x@), Err(_) => self.v().request is None }"}
    I[R + "impl Request::fn get_err"] = {"ret": "r", "clauses": "ensures match r { Ok(x) => self.v().error == Some(x@), Err(_) => self.v().error is None }"}
    I[R + "impl Request::fn get_response"] = {"ret": "r", "start": BU, "clauses": "ensures r is Ok ==> self.v().actions.len() > 0 && self.v().actions[0].response == Some(r->Ok_0@)"}
    I[R + "impl EntityParser for Request"] = {"members": "closed spec fn vx_is(&self, e: VxEnt) -> bool { match e { VxEnt::Req(b) => self.v() == b.c && self.closed == (b.ph is Closed) && " + EXP % "b"
        + " && vx_shape(b) && match self.pending { Pending::Request(p) => b.ph is Ref && b.ph->Ref_0.path == p@, Pending::Error(p) => b.ph is Err && b.ph->Err_0.path == p@, Pending::Broadcast(p) => b.ph is Cast && b.ph->Cast_0.path == p@,"
        + " Pending::Nothing => b.ph is CastFirst || b.ph is CastNext || b.ph is ActFirst || b.ph is ActNext || b.ph is Closed,"
        + " Pending::Action(a) => vx_act_at(b.ph) == Some((a.v(), a.current@, a.optional)) }, _ => false } }"}
    I[R + "impl EntityParser for Request::fn open"] = {"ret": "r", "start": "proof { assert(word.vx_chs() == word@); assert(vx_isname(word@) <==> forall|i: int| 0 <= i < word.vx_chs().len() ==> vx_namec(#[trigger] word.vx_chs()[i])); }", "closures": [{"clauses": "ensures vxr == vx_namec(${c0})"}], "clauses": "ensures r is Some == vx_isname(word@), r is Some ==> r->0.vx_is(VxEnt::Req(vx_req0(word@)))"}
    # ---- configuration
    C = "config::"
    I[C + "impl Config::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures r.vx_is(VxEnt::Conf(vx_conf0()))"}
    for k in ("producer", "consumer"):
        I[C + f"impl Config::fn add_{k}"] = {"ret": "r", "clauses": f"ensures r is Ok ==> vx_add_target(old(self).v().{k}, alias@) is Some && final(self).v() == (VxConfC {{ {k}: vx_add_target(old(self).v().{k}, alias@)->0, ..old(self).v() }}) && vx_rest(*final(self)) == vx_rest(*old(self))"}
    for k in ("self", "assigned"):
        I[C + f"impl Config::fn set_{k}_key"] = {"ret": "r", "clauses": f"ensures r is Ok ==> old(self).v().{k}_key is None && final(self).v() == (VxConfC {{ {k}_key: Some(key@), ..old(self).v() }}) && vx_rest(*final(self)) == vx_rest(*old(self))"}
        I[C + f"impl Config::fn get_{k}"] = {"ret": "r", "clauses": f"ensures match r {{ Ok(x) => self.v().{k}_key == Some(x@), Err(_) => self.v().{k}_key is None }}"}
    I[C + "impl Config::fn close"] = {"ret": "r", "start": BU, "attrs": "#[verifier::spinoff_prover]", "clauses": """ensures r is Ok ==> match vx_conf_close(VxConf { c: old(self).v(), ph: VxConfPh::Item }, old(protocol).w()) { Some(x) => final(self).v() == x.0.c && final(protocol).w() == x.1, None => false } && final(self).closed && final(self).pending == old(self).pending"""}
    I[C + "impl EntityParser for Config"] = {"members": "closed spec fn vx_is(&self, e: VxEnt) -> bool { match e { VxEnt::Conf(b) => self.v() == b.c && self.closed == (b.ph is Closed) && (b.ph is Closed || " + EXP % "b"
        + ") && vx_shape(b) && match self.pending { Pending::Nothing => b.ph is Open || b.ph is Item || b.ph is Closed, Pending::Producer => vx_item_at(b.ph) == Some(VxItem::Producer), Pending::Consumer => vx_item_at(b.ph) == Some(VxItem::Consumer),"
        + " Pending::SelfKey(p) => vx_key_at(b.ph, VxItem::SelfKey) == Some(p@), Pending::AssignedKey(p) => vx_key_at(b.ph, VxItem::AssignedKey) == Some(p@) }, _ => false } }"}
    I[C + "impl EntityParser for Config::fn open"] = {"ret": "r", "clauses": "ensures r is Some == (word@ == \"&config\"@), r is Some ==> r->0.vx_is(VxEnt::Conf(vx_conf0()))"}
    # ---- the store
    S = "store::"
    O = "old(self).v()"
    I[S + "impl Store::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures forall|w: VxW| r.v() == (#[trigger] vx_begin(hash@, w)).store"}
    I[S + "impl Store::fn get_hash"] = {"ret": "r", "clauses": "ensures r@ == self.v().hash"}
    I[S + "impl Store::fn set_config"] = {"ret": "r", "clauses": f"ensures r is Ok ==> {O}.config is None && final(self).v() == (VxStore {{ config: Some(config.v()), ..{O} }})"}
    I[S + "impl Store::fn get_config"] = {"ret": "r", "clauses": "ensures match r { Ok(x) => self.v().config == Some(x.v()), Err(_) => self.v().config is None }"}
    for n, f, l in (("event", "events", "vx_evts"), ("request", "requests", "vx_reqs")):
        k = "reference" if n == "event" else "request"
        I[S + f"impl Store::fn add_{n}"] = {"ret": "r", "start": BU, "clauses": f"ensures r is Ok ==> {n}.v().{k} is Some && (forall|i: int| 0 <= i < {O}.{f}.len() ==> (#[trigger] {O}.{f}[i]).{k} != {n}.v().{k}) && final(self).v() == (VxStore {{ {f}: {O}.{f}.push({n}.v()), ..{O} }})",
            "loops": [{"kind": "for", "iter": "vx_it", "clauses": f"invariant *self == *old(self), {over('self.' + f + '@')} {n}.v().{k} == Some(reference@), forall|i: int| 0 <= i < vx_it.index@ ==> (#[trigger] self.v().{f}[i]).{k} != {n}.v().{k},"}]}
    I[S + "impl Store::fn is_request_exist"] = {"ret": "r", "start": BU, "clauses": "ensures r is Ok ==> r->Ok_0 == (exists|j: int| 0 <= j < self.v().requests.len() && (#[trigger] self.v().requests[j]).request == Some(req@))",
        "loops": [{"kind": "for", "iter": "vx_it", "clauses": f"invariant {over('self.requests@')} forall|j: int| 0 <= j < vx_it.index@ ==> (#[trigger] self.v().requests[j]).request != Some(req@),", "start": "let ghost vx_q = self.v().requests[vx_it.index@ as int];"}]}
    I[S + "impl Store::fn validate"] = {"ret": "r", "start": BU, "clauses": "ensures r is Ok ==> vx_apart(self.v())",
        "loops": [{"kind": "for", "iter": "vx_it", "clauses": f"invariant {over('self.beacons@')} forall|i: int, j: int| 0 <= i < vx_it.index@ && 0 <= j < self.v().requests.len() ==> (#[trigger] self.v().requests[j]).request != Some((#[trigger] self.v().beacons[i]).reference),"}]}
    I[S + "impl Store::fn add_beacon"] = {"ret": "r", "start": BU + " let ghost vx_l = beacons.beacons@; let ghost vx_s0 = self.v(); proof { assert(vx_l.skip(0) =~= vx_l); assert(vx_bcs(vx_l).take(0) =~= Seq::empty()); }", "attrs": "#[verifier::spinoff_prover]",
        "clauses": f"ensures r is Ok ==> vx_distinct_from({O}.beacons, vx_bcs(beacons.beacons@)) && final(self).v() == (VxStore {{ beacons: {O}.beacons + vx_bcs(beacons.beacons@), ..{O} }})",
        "loops": [{"kind": "while", "before": "let ghost mut vx_k: int = 0;", "clauses": f"""invariant
    beacons.beacons@ == vx_l.skip(vx_k), 0 <= vx_k <= vx_l.len(), vx_l == old_beacons, vx_s0 == {O}, self.v() == (VxStore {{ beacons: vx_s0.beacons + vx_bcs(vx_l).take(vx_k), ..vx_s0 }}),
    forall|i: int| 0 <= i < vx_k ==> !vx_hascast(vx_s0.beacons + vx_bcs(vx_l).take(i), (#[trigger] vx_bcs(vx_l)[i]).reference),
ensures vx_k == vx_l.len(),
decreases beacons.beacons@.len()""".replace(" vx_l == old_beacons,", "").replace(f" vx_s0 == {O},", ""),
                   "start": "proof { assert(vx_l.skip(vx_k).skip(1) =~= vx_l.skip(vx_k + 1)); assert(vx_bcs(vx_l).take(vx_k).push(vx_bcs(vx_l)[vx_k]) =~= vx_bcs(vx_l).take(vx_k + 1)); } let ghost vx_b0 = self.v().beacons;",
                   "end": "proof { assert(self.v().beacons == vx_b0.push(vx_bcs(vx_l)[vx_k])); assert(self.v().beacons =~= vx_s0.beacons + vx_bcs(vx_l).take(vx_k + 1)); vx_k = vx_k + 1; }",
                   "after": "proof { assert(vx_bcs(vx_l).take(vx_k) =~= vx_bcs(vx_l)); }"},
                  {"kind": "for", "iter": "vx_it", "clauses": f"invariant {over('self.beacons@')} self.v().beacons == vx_b0, forall|i: int| 0 <= i < vx_it.index@ ==> (#[trigger] self.v().beacons[i]).reference != beacon.v().reference,"}]}
    # ---- the parser
    I["impl Parser::fn get_content"] = {"ret": "r", "clauses": "ensures r is Ok ==> r->Ok_0@ == vx_file(target)"}
    I["impl Parser::fn new"] = {"ret": "r", "clauses": "ensures match r { Ok(p) => p.vx_src() == src && p.vx_fresh(), Err(_) => true }"}
    I["impl Parser::fn err"] = {"ret": "r", "clauses": "requires exists|k: int| vx_at_byte(self.content@, self.cursor as int, k)"}
    I["impl Parser::fn next"] = {"ret": "r", "attrs": "#[verifier::spinoff_prover]", "clauses": """ensures *final(self) == *old(self), match r { Ok(ENext::End()) => vx_next(content@) is End, Ok(e) => match vx_next(content@) { VxNext::Tok(t, n) => vx_tok(e) == Some(t) && vx_off(e) == vx_bytes(content@, n), _ => false }, Err(_) => vx_next(content@) is Bad || vx_badmark(content@) }""",
        "start": "proof { vx_mem_bytes(&content); vx_bytes_le(content@, 0); }",
        "binds": {"STR": "letmut$:String=@", "PASS": "letmut$:usize=@", "CM": "letmut$:bool=false;@", "BC": "let$:Vec<char>=vec![chars::CLOSE@", "AC": "let$:Vec<char>=vec![chars::UNDER@", "LC": "let$:Vec<char>=vec![chars::AT@"},
        "closures": [{"clauses": "auto"}] * 3,
        "loops": [{"kind": "for", "iter": "vx_it", "desugar": True, "clauses": """invariant
    *self == *old(self), vx_it.obeys_prophetic_iter_laws(), vx_it.remaining() == content@.skip(vx_k), 0 <= vx_k <= content@.len(), vx_bytes(content@, content@.len() as int) <= isize::MAX,
    ${BC}@ == seq!['}', '{', ':', '?', ';', '.', '(', ')', '>', '!'], ${AC}@ == seq!['_'], ${LC}@ == seq!['@', '&'],
    ${PASS} == vx_bytes(content@, vx_k), vx_lexing(content@, vx_k, ${STR}@, comment),
ensures vx_k == content@.len(),
decreases content@.len() - vx_k""",
            "start": "proof { vx_bytes_step(content@, vx_k); vx_bytes_le(content@, vx_k + 1); vx_lex_step(content@, vx_k, ${STR}@, comment); let b = ${BC}@; assert(b[0] == '}' && b[1] == '{' && b[2] == ':' && b[3] == '?' && b[4] == ';' && b[5] == '.' && b[6] == '(' && b[7] == ')' && b[8] == '>' && b[9] == '!'); assert(${AC}@[0] == '_'); assert(${LC}@[0] == '@' && ${LC}@[1] == '&'); }",
            "after": "proof { vx_lex_end(content@, ${STR}@, comment); }"}]}
    I["impl Parser::fn parse"] = {"ret": "r", "attrs": "#[verifier::spinoff_prover]", "slices": {"from": "vx_from"},
        "clauses": """requires old(self).vx_fresh()
ensures match r { Ok(st) => match vx_run(vx_begin(vx_hash(old(self).vx_src()), old(protocol).w()), vx_file(old(self).vx_src())) { Some(x) => x.store == st.v() && x.w == final(protocol).w() && vx_apart(st.v()), None => false }, Err(_) => true }""",
        "binds": {"CONTENT": "letmut$:String=@", "OPENED": "letmut$:Option<Box<dynEntityParser>>=@"},
        "loops": [{"kind": "loop", "before": """let ghost mut vx_st = vx_begin(vx_hash(old(self).vx_src()), old(protocol).w()); let ghost mut vx_c: int = 0; let ghost vx_r0 = vx_run(vx_st, ${CONTENT}@);
proof { vx_mem_bytes(&${CONTENT}); vx_bytes_le(${CONTENT}@, 0); assert(${CONTENT}@.skip(0) =~= ${CONTENT}@); }""", "clauses": """invariant_except_break
    self.vx_src() == old(self).vx_src(), self.vx_store() == vx_st.store, protocol.w() == vx_st.w, ${OPENED} is Some == vx_st.open is Some,
    vx_st.open is Some ==> (*${OPENED}->0).vx_is(vx_st.open->0) && !vx_done(vx_st.open->0),
    vx_run(vx_st, ${CONTENT}@) == vx_r0, 0 <= vx_c <= self.content@.len(), ${CONTENT}@ == self.content@.skip(vx_c), self.cursor == vx_bytes(self.content@, vx_c), vx_bytes(self.content@, self.content@.len() as int) <= isize::MAX,
ensures self.vx_src() == old(self).vx_src(), vx_r0 == Some(VxSt { store: self.vx_store(), w: protocol.w(), open: None }),
decreases ${CONTENT}@.len()""",
            "start": "let ghost vx_t0 = ${CONTENT}@; proof { vx_next_adv(vx_t0); assert(vx_at_byte(self.content@, self.cursor as int, vx_c)); if vx_next(vx_t0) is Tok { let n = vx_next(vx_t0)->Tok_1; vx_bytes_skip(self.content@, vx_c, n); vx_bytes_le(self.content@, vx_c + n); vx_bytes_le(vx_t0, n); assert(vx_at_byte(vx_t0, vx_bytes(vx_t0, n), n)); assert(vx_t0.skip(n) =~= self.content@.skip(vx_c + n)); if vx_next(vx_t0)->Tok_0 is Word { vx_names(vx_next(vx_t0)->Tok_0->Word_0); } } }",
            "end": "proof { vx_st = vx_step(vx_st, vx_next(vx_t0)->Tok_0)->0; vx_c = vx_c + vx_next(vx_t0)->Tok_1; }"}]}
    return I


POST = {
    "beacon": "impl Broadcast { pub open spec fn v(&self) -> VxBc { VxBc { reference: self.reference@, optional: self.optional } } }\n"
        + may("VxBcsPh", [("Open", "Open"), ("First", "Arrow"), ("Next", "Arrow Close"), ("Ref(r)", at("Word PathDelimiter Semicolon")), ("Closed", "?false")]),
    "event": "impl Event { pub open spec fn v(&self) -> VxEvtC { VxEvtC { reference: vx_os(self.reference), casts: vx_bcs(self.broadcasts@) } } }\n"
        + may("VxEvtPh", [("Ref(r)", at("Word PathDelimiter Open Semicolon")), ("First", "Arrow"), ("Next", "Arrow Close"), ("Cast(r)", at("Word PathDelimiter Semicolon Question")), ("Opt(r)", "Semicolon"), ("Closed", "?false")]),
    "request": """impl Action { pub open spec fn v(&self) -> VxAct { VxAct { conclusion: vx_os(self.conclusion), response: vx_os(self.response), casts: vx_bcs(self.broadcast@) } } }
impl Request { pub open spec fn v(&self) -> VxReqC { VxReqC { request: vx_os(self.request), error: vx_os(self.error), actions: vx_acts(self.actions@), casts: vx_strs(self.broadcasts@) } } }
spec fn vx_refok(r: VxRef) -> bool { r.at is Word ==> r.path.len() > 0 }
/// what is always true while a request is read
spec fn vx_shape(b: VxReq) -> bool {
    match b.ph { VxReqPh::Ref(r) => vx_refok(r) && b.c == vx_req0(r.path).c, VxReqPh::Err(r) => vx_refok(r) && b.c.request is Some && b.c.error is None && b.c.actions.len() == 0, VxReqPh::Cast(r) => vx_refok(r),
        VxReqPh::In(r) => vx_refok(r), VxReqPh::InResp(a, r) => vx_refok(r) && a.conclusion is Some && a.response is None && a.casts.len() == 0,
        VxReqPh::Out(a) => a.response is Some, VxReqPh::ACast(a, r) => vx_refok(r) && a.response is Some, VxReqPh::AOpt(a, r) => r.path.len() > 0 && a.response is Some, VxReqPh::ANext(a) => a.response is Some, _ => true } }
/// the action under construction, the reference under construction in it, and its mark
spec fn vx_act_at(ph: VxReqPh) -> Option<(VxAct, Seq<char>, bool)> {
    match ph { VxReqPh::In(r) => Some((VxAct { conclusion: None, response: None, casts: Seq::empty() }, r.path, false)), VxReqPh::InResp(a, r) => Some((a, r.path, false)), VxReqPh::Out(a) => Some((a, Seq::empty(), false)),
        VxReqPh::ACast(a, r) => Some((a, r.path, false)), VxReqPh::AOpt(a, r) => Some((a, r.path, true)), VxReqPh::ANext(a) => Some((a, Seq::empty(), false)), _ => None } }
""" + may("VxReqPh", [("Ref(r)", at("Word PathDelimiter Semicolon Exclamation Open")), ("Err(r)", at("Word PathDelimiter Open")), ("CastFirst", "Arrow"), ("CastNext", "Arrow Close"), ("Cast(r)", at("Word PathDelimiter Semicolon")),
        ("ActFirst", "OpenBracket"), ("ActNext", "Close OpenBracket"), ("In(r)", at("Word PathDelimiter Arrow CloseBracket")), ("InResp(a, r)", at("Word PathDelimiter CloseBracket")), ("Out(a)", "Arrow Semicolon"),
        ("ACast(a, r)", at("Word PathDelimiter Semicolon Question")), ("AOpt(a, r)", "Semicolon"), ("ANext(a)", "Close OpenBracket Arrow"), ("Closed", "?false")]),
    "config": """impl Config { pub open spec fn v(&self) -> VxConfC { VxConfC { producer: self.producer@, consumer: self.consumer@, self_key: vx_os(self.self_key), response: self.self_key_response@, assigned_key: vx_os(self.assigned_key) } } }
spec fn vx_rest(c: Config) -> (bool, Vec<EExpectation>, Pending) { (c.closed, c.expectation, c.pending) }
spec fn vx_item_at(ph: VxConfPh) -> Option<VxItem> { match ph { VxConfPh::Colon(i) => Some(i), VxConfPh::Targets(i, l) => Some(i), _ => None } }
spec fn vx_key_at(ph: VxConfPh, i: VxItem) -> Option<Seq<char>> { match ph { VxConfPh::Colon(j) => if i == j { Some(Seq::empty()) } else { None }, VxConfPh::Key(j, r) => if i == j { Some(r.path) } else { None }, _ => None } }
/// what is always true while a configuration is read
spec fn vx_shape(b: VxConf) -> bool {
    match b.ph { VxConfPh::Open => b.c == vx_conf0().c, VxConfPh::Targets(i, l) => (i is Producer || i is Consumer) && (l is Word ==> if i is Producer { b.c.producer.len() > 0 } else { b.c.consumer.len() > 0 }), VxConfPh::Key(i, r) => (i is SelfKey || i is AssignedKey) && (r.at is Word ==> r.path.len() > 0), _ => true } }
""" + may("VxConfPh", [("Open", "Open"), ("Item", "Word"), ("Colon(i)", "ValueDelimiter"), ("Targets(i, l)", "?if l is Word { x is Word || x is Comma || x is Semicolon } else { x is Word }"), ("Key(i, r)", at("Word PathDelimiter Semicolon")), ("Closed", "?false")]),
    "store": "impl Store { pub open spec fn v(&self) -> VxStore { VxStore { events: vx_evts(self.events@), requests: vx_reqs(self.requests@), beacons: vx_bcs(self.beacons@), config: match self.config { Some(c) => Some(c.v()), None => None }, hash: self.hash@ } } }\n",
}


def hash_too(I, key):
    """H01: the hash on its own, so that a failure of this clause tells about the hash"""
    I[key] = dict(I[key])
    I[key]["clauses"] += ",\n match r { Ok(st) => st.v().hash == vx_hash(old(self).vx_src()), Err(_) => true } /*H01*/"
    l = dict(I[key]["loops"][0])
    new = " self.vx_store().hash == vx_hash(old(self).vx_src()), /*H01*/\n"
    l["clauses"] = l["clauses"].replace("invariant_except_break\n", "invariant_except_break\n" + new, 1).replace("\nensures ", "\nensures " + new, 1)
    I[key]["loops"] = [l] + I[key]["loops"][1:]


def rules(cli, drop=(), lemmas="", hash=False):
    I = items()
    if hash:
        k = "store::impl Store::fn new"
        I[k] = dict(I[k], clauses=I[k]["clauses"] + ",\n r.v().hash == hash@ /*H01*/")
        hash_too(I, "impl Parser::fn parse")
    W = cli + "/src/workflow/"
    src = [{"path": cli + "/src/helpers/chars.rs", "pre": "pub mod chars {", "post": "}"},
           {"path": cli + "/src/protocol/types.rs", "keep": ["mod PrimitiveTypes::x", "PrimitiveTypes::enum ETypes"]},
           {"path": cli + "/src/protocol/render/render.rs", "keep": ["enum Target"]},
           {"path": cli + "/src/protocol/store.rs", "keep": ["const INTERNAL_SERVICE_GROUP"]}]
    M = {"clone": "vx_clone", "to_string": "vx_to_string", "to_owned": "vx_to_owned", "starts_with": "vx_starts_with", "contains": "vx_contains", "as_deref_mut": "vx_as_deref_mut", "len_utf8": "vx_len_utf8"}
    for m in ("beacon", "event", "request", "config", "store"):
        s = {"path": W + m + ".rs", "prefix": m + "::", "pre": f"pub mod {m} {{ use vstd::prelude::*; use super::*;", "post": POST[m] + ("unsafe impl Structural for EExpectation {}" if m != "store" else "") + "}"}
        if m == "event":
            s["methods"] = dict(M, len="vx_len")
        src.append(s)
    src.append({"path": W + "parser.rs", "post": """impl Parser { pub closed spec fn vx_src(&self) -> PathBuf { self.src } pub closed spec fn vx_store(&self) -> VxStore { self.store.v() }
    pub closed spec fn vx_fresh(&self) -> bool { self.cursor == 0 && forall|w: VxW| self.store.v() == (#[trigger] vx_begin(vx_hash(self.src), w)).store } }
"""})
    return {
        "header": prelude() + lemmas, "footer": "\n} // verus!\n",
        "loops_need_rules": False, "publish": True, "drop_uses": ["super::", "helpers::", "beacon::", "config::", "event::", "request::", "store::", "std::"], "drop_derives": ["Debug"], "mod_prelude": "use vstd::prelude::*; use super::*;",
        "drop": UNUSED + list(drop), "methods": M,
        "paths": {"String::from": "vx_string_from"},
        "chains": {"iter.find": "vx_iter_find", "iter.any": "vx_iter_any", "chars.all": "vx_chars_all"},
        "macros": {"format": "vx_formatm", "println": "vx_printm"}, "text_operands": ["stored", "key_words::", "defaults::", "\""],
        "sources": src, "stub": ["impl Parser::fn get_content", "impl Parser::fn err"],
        "items": I}


# not used by the parser of the workflow
UNUSED = ["trait EntityParser::fn print"] + ["request::impl Action::fn get_last_response_entity", "request::impl Request::fn get_path"]
