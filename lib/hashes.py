"""Contracts for the hash of a source file (/repo/cli/src/helpers/hash.rs)."""
import os
import vk

SP = os.path.join(vk.ROOT, "spec")


def rules(cli):
    return {
        "header": open(os.path.join(SP, "hash_spec.rs")).read(), "footer": "\n} // verus!\n",
        "loops_need_rules": False, "inline_maps": True, "drop_uses": ["data_encoding", "ring::", "std::"], "drop_derives": ["Debug"],
        "methods": {"to_string": "vx_to_string", "as_ref": "vx_as_ref"}, "slices": {"to": "vx_cut_to", "range": "vx_cut"},
        "macros": {"format": "vx_formatm"},
        "sources": [{"path": cli + "/src/helpers/hash.rs", "inline_maps": True}],
        "items": {
            "fn get": {"ret": "r", "clauses": "ensures r is Ok ==> r->Ok_0@ == vx_hash(*${p0})"},
            "fn calc_sha256_digest": {"ret": "r", "start": "broadcast use vx_array_len;", "clauses": "ensures r is Ok ==> r->Ok_0.v() == vx_digest(SHA256, ${p0}.vx_rest())",
                "binds": {"CTX": ["letmut$=Context@", "letmut$=digest::Context@", "letmut$:Context=@"], "BUF": ["letmut$=[0@", "letmut$:[u8;@", "letmut$=vec![0@", "letmut$:Vec<u8>=@"]},
                "loops": [{"kind": "loop", "before": "let ghost vx_all = ${p0}.vx_rest();",
                           "clauses": "invariant ${CTX}.v() + ${p0}.vx_rest() == vx_all, ${CTX}.alg() == SHA256, ${BUF}.vx_b().len() > 0, ensures ${CTX}.v() == vx_all, ${CTX}.alg() == SHA256, decreases ${p0}.vx_rest().len(),",
                           "start": "broadcast use vx_array_len;"}]},
        }}
