
// ======================================================================================
// H01: reading a file keeps its hash
// ======================================================================================
pub proof fn vx_h01_step(st: VxSt, t: VxTok) requires vx_step(st, t) is Some ensures vx_step(st, t)->0.store.hash == st.store.hash {}
pub proof fn vx_h01_run(st: VxSt, s: Seq<char>) requires vx_run(st, s) is Some ensures vx_run(st, s)->0.store.hash == st.store.hash decreases s.len()
{ match vx_next(s) { VxNext::Tok(t, n) => { vx_h01_step(st, t); vx_h01_run(vx_step(st, t)->0, s.skip(n)); }, _ => {} } }
/// the workflow a file describes carries the hash of this file
pub proof fn vx_h01_workflow(h: Seq<char>, w: VxW, s: Seq<char>) requires vx_run(vx_begin(h, w), s) is Some ensures vx_run(vx_begin(h, w), s)->0.store.hash == h { vx_h01_run(vx_begin(h, w), s); }
pub proof fn vx_probe_h01(h: Seq<char>, w: VxW, s: Seq<char>) requires vx_run(vx_begin(h, w), s) is Some ensures h.len() == 0 { vx_h01_run(vx_begin(h, w), s); }
