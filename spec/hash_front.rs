
// ======================================================================================
// H01: reading a file keeps its hash
// ======================================================================================
pub proof fn vx_h01_step(p: VxP, t: VxTok) requires vx_step(p, t) is Some ensures vx_step(p, t)->0.st.hash == p.st.hash {}
pub proof fn vx_h01_run(p: VxP, s: Seq<char>) requires vx_run(p, s) is Some ensures vx_run(p, s)->0.hash == p.st.hash decreases s.len()
{ match vx_next(s) { VxNext::Tok(t, a) => { vx_h01_step(p, t); vx_h01_run(vx_step(p, t)->0, s.skip(a)); }, _ => {} } }
/// the schema a protocol file declares carries the hash of this file
pub proof fn vx_h01_schema(h: Seq<char>, s: Seq<char>) requires vx_run(vx_begin(h), s) is Some ensures vx_run(vx_begin(h), s)->0.hash == h { vx_h01_run(vx_begin(h), s); }
pub proof fn vx_probe_h01(h: Seq<char>, s: Seq<char>) requires vx_run(vx_begin(h), s) is Some ensures h.len() == 0 { vx_h01_run(vx_begin(h), s); }
