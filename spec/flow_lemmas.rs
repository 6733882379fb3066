
// ======================================================================================
// What the contract of `Parser::parse` means for the workflow it returns
// ======================================================================================
pub open spec fn vx_castdist(s: Seq<VxBc>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).reference != (#[trigger] s[j]).reference }
pub open spec fn vx_targets(s: Seq<Target>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
// the references resolve in the schema, with some of the service messages added to it
#[verifier::opaque] pub open spec fn vx_req_sound(c: VxReqC, base: int) -> bool { exists|w: VxW| #[trigger] vx_req_ok(c, w) && w.base == base }
#[verifier::opaque] pub open spec fn vx_evt_sound(c: VxEvtC, base: int) -> bool { exists|w: VxW| #[trigger] vx_evt_ok(c, w) && w.base == base }
#[verifier::opaque] pub open spec fn vx_bc_sound(c: VxBc, base: int) -> bool { exists|w: VxW| #[trigger] vx_known(w, c.reference) && w.base == base }
pub open spec fn vx_acts_dist(s: Seq<VxAct>) -> bool { forall|i: int| 0 <= i < s.len() ==> vx_castdist((#[trigger] s[i]).casts) }
pub open spec fn vx_ent_inv(e: VxEnt) -> bool {
    match e {
        VxEnt::Req(q) => vx_acts_dist(q.c.actions) && match q.ph { VxReqPh::InResp(a, r) => vx_castdist(a.casts), VxReqPh::Out(a) => vx_castdist(a.casts), VxReqPh::ACast(a, r) => vx_castdist(a.casts), VxReqPh::AOpt(a, r) => vx_castdist(a.casts), VxReqPh::ANext(a) => vx_castdist(a.casts), _ => true },
        VxEnt::Conf(k) => vx_targets(k.c.producer) && vx_targets(k.c.consumer),
        _ => true,
    } }
pub open spec fn vx_store_inv(s: VxStore, base: int) -> bool {
    &&& forall|i: int| 0 <= i < s.requests.len() ==> vx_req_sound(#[trigger] s.requests[i], base) && vx_acts_dist(s.requests[i].actions)
    &&& forall|i: int| 0 <= i < s.events.len() ==> vx_evt_sound(#[trigger] s.events[i], base)
    &&& forall|i: int| 0 <= i < s.beacons.len() ==> vx_bc_sound(#[trigger] s.beacons[i], base)
    &&& forall|i: int, j: int| 0 <= i < j < s.requests.len() ==> (#[trigger] s.requests[i]).request != (#[trigger] s.requests[j]).request
    &&& forall|i: int, j: int| 0 <= i < j < s.events.len() ==> (#[trigger] s.events[i]).reference != (#[trigger] s.events[j]).reference
    &&& vx_castdist(s.beacons)
    &&& s.config is Some ==> { let c = s.config->0; c.producer.len() > 0 && c.consumer.len() > 0 && vx_targets(c.producer) && vx_targets(c.consumer) && c.self_key is Some && c.assigned_key is Some }
}
pub open spec fn vx_st_inv(st: VxSt, base: int) -> bool { st.w.base == base && vx_store_inv(st.store, base) && (st.open is Some ==> vx_ent_inv(st.open->0)) }
pub proof fn vx_cast_push(s: Seq<VxBc>, b: VxBc) requires vx_castdist(s), !vx_hascast(s, b.reference) ensures vx_castdist(s.push(b))
{ assert forall|i: int, j: int| 0 <= i < j < s.push(b).len() implies (#[trigger] s.push(b)[i]).reference != (#[trigger] s.push(b)[j]).reference by { if j == s.len() { assert(s.push(b)[i] == s[i]); } } }
pub proof fn vx_cast_all(s: Seq<VxBc>, l: Seq<VxBc>, k: int) requires vx_castdist(s), vx_distinct_from(s, l), 0 <= k <= l.len() ensures vx_castdist(s + l.take(k)) decreases k
{ if k == 0 { assert(s + l.take(0) =~= s); } else { vx_cast_all(s, l, k - 1); assert(!vx_hascast(s + l.take(k - 1), l[k - 1].reference)); vx_cast_push(s + l.take(k - 1), l[k - 1]); assert((s + l.take(k - 1)).push(l[k - 1]) =~= s + l.take(k)); } }
pub proof fn vx_step_ent_inv(e: VxEnt, t: VxTok, w: VxW)
    requires vx_ent_inv(e), vx_step_ent(e, t, w) is Some
    ensures vx_ent_inv(vx_step_ent(e, t, w)->Some_0.0), vx_step_ent(e, t, w)->Some_0.1.base == w.base
{
    let x = vx_step_ent(e, t, w)->Some_0.0;
    match e {
        VxEnt::Req(q) => {
            match q.ph { VxReqPh::ACast(a, r) => { if t is Semi { vx_cast_push(a.casts, VxBc { reference: r.path, optional: false }); } }, VxReqPh::AOpt(a, r) => { if t is Semi { vx_cast_push(a.casts, VxBc { reference: r.path, optional: true }); } }, _ => {} }
            let y = x->Req_0.c;
            assert forall|i: int| 0 <= i < y.actions.len() implies vx_castdist((#[trigger] y.actions[i]).casts) by { if i < q.c.actions.len() { assert(y.actions[i] == q.c.actions[i]); } }
        }
        VxEnt::Conf(k) => { let y = x->Conf_0.c; assert(vx_targets(y.producer) && vx_targets(y.consumer)); }
        _ => {}
    }
}
pub proof fn vx_step_inv(st: VxSt, t: VxTok, base: int)
    requires vx_st_inv(st, base), vx_step(st, t) is Some
    ensures vx_st_inv(vx_step(st, t)->0, base)
{
    let n = vx_step(st, t)->0;
    if st.open is Some {
        let e = st.open->0; vx_step_ent_inv(e, t, st.w);
        let x = vx_step_ent(e, t, st.w)->Some_0;
        if vx_done(x.0) {
            let s = st.store; let m = n.store;
            match x.0 {
                VxEnt::Req(q) => { assert(vx_req_ok(q.c, st.w)); reveal(vx_req_sound); assert(vx_req_sound(q.c, base));
                    assert forall|i: int| 0 <= i < m.requests.len() implies vx_req_sound(#[trigger] m.requests[i], base) && vx_acts_dist(m.requests[i].actions) by { if i < s.requests.len() { assert(m.requests[i] == s.requests[i]); } }
                    assert forall|i: int, j: int| 0 <= i < j < m.requests.len() implies (#[trigger] m.requests[i]).request != (#[trigger] m.requests[j]).request by { assert(m.requests[i] == s.requests[i]); if j < s.requests.len() { assert(m.requests[j] == s.requests[j]); } } }
                VxEnt::Evt(v) => { assert(vx_evt_ok(v.c, st.w)); reveal(vx_evt_sound); assert(vx_evt_sound(v.c, base));
                    assert forall|i: int| 0 <= i < m.events.len() implies vx_evt_sound(#[trigger] m.events[i], base) by { if i < s.events.len() { assert(m.events[i] == s.events[i]); } }
                    assert forall|i: int, j: int| 0 <= i < j < m.events.len() implies (#[trigger] m.events[i]).reference != (#[trigger] m.events[j]).reference by { assert(m.events[i] == s.events[i]); if j < s.events.len() { assert(m.events[j] == s.events[j]); } } }
                VxEnt::Bcs(b) => { vx_cast_all(s.beacons, b.list, b.list.len() as int); assert(b.list.take(b.list.len() as int) =~= b.list); reveal(vx_bc_sound);
                    assert forall|i: int| 0 <= i < m.beacons.len() implies vx_bc_sound(#[trigger] m.beacons[i], base) by { if i < s.beacons.len() { assert(m.beacons[i] == s.beacons[i]); } else { let c = b.list[i - s.beacons.len()]; assert(m.beacons[i] == c); assert(vx_known(st.w, c.reference)); } } }
                VxEnt::Conf(k) => {}
            }
        }
    }
}
pub proof fn vx_run_inv(st: VxSt, s: Seq<char>, base: int)
    requires vx_st_inv(st, base), vx_run(st, s) is Some
    ensures vx_st_inv(vx_run(st, s)->0, base)
    decreases s.len()
{ if vx_next(s) is Tok { let t = vx_next(s)->Tok_0; let n = vx_next(s)->Tok_1; vx_step_inv(st, t, base); vx_run_inv(vx_step(st, t)->0, s.skip(n), base); } }
/// W03: whatever is read, the workflow is complete: nothing twice, every reference resolves
pub proof fn vx_w03_complete(hash: Seq<char>, w: VxW, s: Seq<char>) requires vx_run(vx_begin(hash, w), s) is Some ensures vx_store_inv(vx_run(vx_begin(hash, w), s)->0.store, w.base), vx_run(vx_begin(hash, w), s)->0.w.base == w.base
{ vx_run_inv(vx_begin(hash, w), s, w.base); }
/// W03: a request with actions names an error; with several actions each has its conclusion
pub proof fn vx_w03_request(c: VxReqC, base: int) requires vx_req_sound(c, base)
    ensures c.request is Some, c.actions.len() > 0 ==> c.error is Some, c.actions.len() > 1 ==> forall|i: int| 0 <= i < c.actions.len() ==> (#[trigger] c.actions[i]).conclusion is Some, forall|i: int| 0 <= i < c.actions.len() ==> (#[trigger] c.actions[i]).response is Some
{ reveal(vx_req_sound); let w = choose|w: VxW| #[trigger] vx_req_ok(c, w) && w.base == base; assert forall|i: int| 0 <= i < c.actions.len() implies (#[trigger] c.actions[i]).response is Some && (c.actions.len() > 1 ==> c.actions[i].conclusion is Some) by { assert(vx_act_ok(c.actions[i], c.actions.len() == 1, w)); } }
/// W03: every event has a broadcast
pub proof fn vx_w03_event(c: VxEvtC, base: int) requires vx_evt_sound(c, base) ensures c.reference is Some, c.casts.len() > 0 { reveal(vx_evt_sound); }
/// W02: a workflow once read is a function of the hash of the file, of its text and of the schema
pub proof fn vx_w02_once(a: Option<VxSt>, b: Option<VxSt>, hash: Seq<char>, w: VxW, s: Seq<char>) requires a == vx_run(vx_begin(hash, w), s), b == vx_run(vx_begin(hash, w), s) ensures a == b {}
/// W02: white space in front of a token says nothing
pub proof fn vx_w02_space(st: VxSt, s: Seq<char>, c: char) requires vx_ws(c) ensures vx_run(st, seq![c] + s) == vx_run(st, s)
{ let t = seq![c] + s; assert(t.skip(1) =~= s); assert(t[0] == c); assert(vx_skip(t, 0) == vx_skip(t, 1)); vx_front(st, t, s, 1); }
/// W02: a comment line in front of a token says nothing
pub proof fn vx_w02_comment(st: VxSt, l: Seq<char>, s: Seq<char>) requires forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != '\n' ensures vx_run(st, seq!['#'] + l + seq!['\n'] + s) == vx_run(st, s)
{
    let t = seq!['#'] + l + seq!['\n'] + s; let d = l.len() as int + 2; let e = l.len() as int + 1;
    assert(t.skip(d) =~= s); assert(t[0] == '#'); assert(t[e] == '\n');
    assert forall|i: int| 1 <= i <= l.len() implies #[trigger] t[i] != '\n' by { assert(t[i] == l[i - 1]); }
    vx_eol_at(t, 0, e);
    assert(vx_skip(t, 0) == vx_skip(t, e)); assert(vx_skip(t, e) == vx_skip(t, d));
    vx_front(st, t, s, d);
}
pub proof fn vx_eol_at(t: Seq<char>, i: int, e: int) requires 0 <= i <= e < t.len(), t[e] == '\n', forall|k: int| i <= k < e ==> #[trigger] t[k] != '\n' ensures vx_eol(t, i) == e decreases e - i
{ if i < e { vx_eol_at(t, i + 1, e); } }
/// `t` is `s` with `d` characters in front that say nothing
pub proof fn vx_front(st: VxSt, t: Seq<char>, s: Seq<char>, d: int)
    requires 0 < d <= t.len(), t.skip(d) == s, vx_skip(t, 0) == vx_skip(t, d) ensures vx_run(st, t) == vx_run(st, s)
{
    let n = vx_skip(s, 0); vx_skip_le(s, 0); vx_shift(t, s, d, 0);
    if n < s.len() {
        assert(t[n + d] == s[n]);
        vx_wend_le(s, n); vx_shift(t, s, d, n);
        let e = vx_wend(s, n); if e < s.len() { assert(t[e + d] == s[e]); vx_shift(t, s, d, e); vx_eol_le(s, e); if vx_eol(s, e) < s.len() { assert(t[vx_eol(s, e) + d] == s[vx_eol(s, e)]); } }
        assert(t.subrange(n + d, e + d) =~= s.subrange(n, e));
    }
    match vx_next(s) {
        VxNext::Tok(w, a) => { assert(vx_next(t) == VxNext::Tok(w, a + d)); vx_next_adv(s); assert(t.skip(a + d) =~= s.skip(a)); }
        VxNext::End => { assert(vx_next(t) is End); }
        VxNext::Bad => { assert(vx_next(t) is Bad); }
    }
}
/// positions in a text with `d` more characters in front
pub proof fn vx_shift(t: Seq<char>, s: Seq<char>, d: int, i: int)
    requires 0 <= d <= t.len(), t.skip(d) == s, 0 <= i <= s.len() ensures vx_skip(t, i + d) == vx_skip(s, i) + d, vx_wend(t, i + d) == vx_wend(s, i) + d, vx_eol(t, i + d) == vx_eol(s, i) + d decreases s.len() - i
{ if i < s.len() { assert(t[i + d] == s[i]); vx_shift(t, s, d, i + 1); if s[i] == '#' { vx_eol_le(s, i); vx_eol_le(s, i + 1); vx_shift(t, s, d, vx_eol(s, i)); } } }

// ---- these must fail
pub proof fn vx_probe_false() ensures false { broadcast use vx_laws; vx_marks(); }
pub proof fn vx_probe_run(hash: Seq<char>, w: VxW, s: Seq<char>) requires vx_run(vx_begin(hash, w), s) is Some, vx_run(vx_begin(hash, w), s)->0.store.requests.len() > 1 ensures false { vx_w03_complete(hash, w, s); }
pub proof fn vx_probe_step(st: VxSt, t: VxTok) requires vx_st_inv(st, 3), vx_step(st, t) is Some, st.open is Some, st.open->0 is Req ensures false { vx_step_inv(st, t, 3); }
