
// ======================================================================================
// What the contract of `Parser::parse` means for the schema it returns
// ======================================================================================
/// P01: identifiers are not zero, no two definitions share one, and no field shares one with anything outside its struct
pub proof fn vx_p01_unique(s: VxStore) requires s.wf(), vx_closed(s)
    ensures
        forall|i: int| 0 <= i < s.structs.len() ==> 0 < (#[trigger] s.structs[i]).id,
        forall|i: int| 0 <= i < s.enums.len() ==> 0 < (#[trigger] s.enums[i]).id,
        forall|i: int| 0 <= i < s.groups.len() ==> 0 < (#[trigger] s.groups[i]).id,
        forall|i: int, j: int| 0 <= i < j < s.structs.len() ==> (#[trigger] s.structs[i]).id < (#[trigger] s.structs[j]).id,
        forall|i: int, j: int| 0 <= i < j < s.enums.len() ==> (#[trigger] s.enums[i]).id < (#[trigger] s.enums[j]).id,
        forall|i: int, j: int| 0 <= i < s.groups.len() && 0 <= j < s.groups.len() && i != j ==> (#[trigger] s.groups[i]).id != (#[trigger] s.groups[j]).id,
        forall|i: int, j: int| 0 <= i < s.structs.len() && 0 <= j < s.enums.len() ==> (#[trigger] s.structs[i]).id != (#[trigger] s.enums[j]).id,
        forall|i: int, j: int| 0 <= i < s.structs.len() && 0 <= j < s.groups.len() ==> (#[trigger] s.structs[i]).id != (#[trigger] s.groups[j]).id,
        forall|i: int, j: int| 0 <= i < s.enums.len() && 0 <= j < s.groups.len() ==> (#[trigger] s.enums[i]).id != (#[trigger] s.groups[j]).id,
{
    reveal(VxStore::wf_ids); reveal(VxStore::wf_tree);
    let n = vx_nodes(s);
    assert forall|i: int| 0 <= i < s.groups.len() implies n[i].id == (#[trigger] s.groups[i]).id by {}
    assert forall|i: int, j: int| 0 <= i < s.structs.len() && 0 <= j < s.enums.len() implies (#[trigger] s.structs[i]).id != (#[trigger] s.enums[j]).id by { assert(s.structs[i].end() >= s.structs[i].id); }
    assert forall|i: int, j: int| 0 <= i < s.structs.len() && 0 <= j < s.groups.len() implies (#[trigger] s.structs[i]).id != (#[trigger] s.groups[j]).id by { assert(n[j].id == s.groups[j].id); assert(s.structs[i].end() >= s.structs[i].id); }
    assert forall|i: int, j: int| 0 <= i < s.enums.len() && 0 <= j < s.groups.len() implies (#[trigger] s.enums[i]).id != (#[trigger] s.groups[j]).id by { assert(n[j].id == s.groups[j].id); }
    assert forall|i: int, j: int| 0 <= i < s.structs.len() && i < j < s.structs.len() implies (#[trigger] s.structs[i]).id < (#[trigger] s.structs[j]).id by { assert(s.structs[i].end() >= s.structs[i].id); }
    assert forall|i: int, j: int| 0 <= i < s.groups.len() && 0 <= j < s.groups.len() && i != j implies (#[trigger] s.groups[i]).id != (#[trigger] s.groups[j]).id by { assert(n[i].id == s.groups[i].id && n[j].id == s.groups[j].id); }
}
/// P01: the fields of a struct are numbered one by one, and no two fields of the schema share a number
pub proof fn vx_p01_fields(s: VxStore, i: int, j: int, k: int, l: int)
    requires s.wf(), vx_closed(s), 0 <= i < s.structs.len(), 0 <= j < s.structs.len(), 0 <= k < s.structs[i].fields.len(), 0 <= l < s.structs[j].fields.len()
    ensures
        s.structs[i].fields[k].id == s.structs[i].id + 1 + k,
        (i != j || k != l) ==> s.structs[i].fields[k].id != s.structs[j].fields[l].id,
        forall|m: int| 0 <= m < s.structs.len() ==> (#[trigger] s.structs[m]).id != s.structs[i].fields[k].id,
        forall|m: int| 0 <= m < s.enums.len() ==> (#[trigger] s.enums[m]).id != s.structs[i].fields[k].id,
        forall|m: int| 0 <= m < s.groups.len() ==> (#[trigger] s.groups[m]).id != s.structs[i].fields[k].id,
{
    reveal(VxStore::wf_ids);
    let n = vx_nodes(s);
    assert(s.structs[i].ok() && s.structs[j].ok());
    assert(s.structs[i].fields[k].id == s.structs[i].id + 1 + k);
    assert(s.structs[j].fields[l].id == s.structs[j].id + 1 + l);
    assert forall|m: int| 0 <= m < s.structs.len() implies (#[trigger] s.structs[m]).id != s.structs[i].fields[k].id by { if m < i { assert(s.structs[m].end() < s.structs[i].id); } if m > i { assert(s.structs[i].end() < s.structs[m].id); } }
    assert forall|m: int| 0 <= m < s.groups.len() implies (#[trigger] s.groups[m]).id != s.structs[i].fields[k].id by { assert(n[m].id == s.groups[m].id); }
    if i < j { assert(s.structs[i].end() < s.structs[j].id); } else if j < i { assert(s.structs[j].end() < s.structs[i].id); }
}
/// P02: a field names a primitive type or a complete definition of that name which has a smaller identifier, so no message contains itself
pub proof fn vx_p02_ground(s: VxStore, i: int, k: int)
    requires s.wf(), vx_closed(s), vx_refs(s), 0 <= i < s.structs.len(), 0 <= k < s.structs[i].fields.len()
    ensures ({ let f = s.structs[i].fields[k]; match f.rid { Some(r) => r < s.structs[i].id && vx_isdef(s, r, f.tp.last()), None => f.tp.len() == 1 && vx_prim(f.tp[0]) is Some } })
{ assert(vx_structok(s, s.structs[i])); assert(vx_fieldok(s, s.structs[i].id, s.structs[i].fields[k])); }
pub proof fn vx_p02_ground_e(s: VxStore, i: int, k: int)
    requires s.wf(), vx_closed(s), vx_refs(s), 0 <= i < s.enums.len(), 0 <= k < s.enums[i].vars.len()
    ensures ({ let f = s.enums[i].vars[k]; match f.rid { Some(r) => r < s.enums[i].id && vx_isdef(s, r, f.tp.last()), None => f.prim is Some } })
{ assert(vx_enumok(s, s.enums[i])); assert(vx_itemok(s, s.enums[i].id, s.enums[i].vars[k])); }
/// P03: no struct has two fields of the same name
pub proof fn vx_p03_names(s: VxStore, i: int, j: int, k: int)
    requires s.wf(), 0 <= i < s.structs.len(), 0 <= j < k < s.structs[i].fields.len()
    ensures s.structs[i].fields[j].name != s.structs[i].fields[k].name
{ reveal(VxStore::wf_ids); assert(s.structs[i].ok()); }
/// P03: white space in front of a token says nothing
pub proof fn vx_p03_layout(p: VxP, c: char, s: Seq<char>)
    requires vx_ws(c) ensures vx_run(p, seq![c] + s) == vx_run(p, s)
{
    let t = seq![c] + s;
    assert(t.skip(1) =~= s);
    vx_shift(t, s, 1, 0);
    assert(vx_skip(t, 0) == vx_skip(t, 1));
    let n = vx_skip(s, 0);
    vx_skip_le(s, 0);
    if n < s.len() {
        assert(t[n + 1] == s[n]);
        vx_skip_le(s, n + 1); vx_wend_le(s, n);
        vx_shift(t, s, 1, n + 1); vx_shift(t, s, 1, n);
        let m = vx_skip(s, n + 1); if m < s.len() { assert(t[m + 1] == s[m]); }
        let e = vx_wend(s, n); if e < s.len() { assert(t[e + 1] == s[e]); }
        assert(t.subrange(n + 1, e + 1) =~= s.subrange(n, e));
    }
    match vx_next(s) {
        VxNext::Tok(w, a) => {
            assert(vx_next(t) == VxNext::Tok(w, a + 1));
            vx_next_adv(s);
            assert(t.skip(a + 1) =~= s.skip(a));
        }
        VxNext::End => { assert(vx_next(t) is End); }
        VxNext::Bad => { assert(vx_next(t) is Bad); }
    }
}
/// positions in a text with `d` more characters in front
pub proof fn vx_shift(t: Seq<char>, s: Seq<char>, d: int, i: int)
    requires 0 <= d <= t.len(), t.skip(d) == s, 0 <= i <= s.len() ensures vx_skip(t, i + d) == vx_skip(s, i) + d, vx_wend(t, i + d) == vx_wend(s, i) + d decreases s.len() - i
{ if i < s.len() { assert(t[i + d] == s[i]); vx_shift(t, s, d, i + 1); } }

// ---- these must fail
pub proof fn vx_probe_false() ensures false { broadcast use {vx_views_laws, vx_find_laws}; }
pub proof fn vx_probe_wf(s: VxStore) requires s.wf(), vx_closed(s), vx_refs(s), s.structs.len() > 2, s.enums.len() > 1, s.groups.len() > 1, s.structs[1].fields.len() > 1 ensures false { reveal(VxStore::wf_ids); reveal(VxStore::wf_tree); }
pub proof fn vx_probe_step(p: VxP, t: VxTok) requires vx_okp(p), vx_refsp(p), vx_step(p, t) is Some, p.st.structs.len() > 0, p.ph is Typed ensures false { reveal(vx_refsp); reveal(VxStore::wf_ids); reveal(VxStore::wf_tree); }
