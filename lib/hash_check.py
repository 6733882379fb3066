"""The check of H01: contracts on hashing a source file, on what the readers of protocol and workflow do with the hash,
and (bounded) the constants in what the real CLI generates."""
import os, re
import vk, front, flow, hashes, hash_run

ASSUME = [
    "Contracts assumed of std, ring and data-encoding: spec/hash_spec.rs. A read hands out a part of the bytes left, none only at the end; a digest of algorithm `a` over the bytes given to it one after the other is a function of `a` and these bytes; so are the digits of an encoding. That this function is SHA-256, and differs for different files, is not proved: the bounded stand-in compares with hashlib.",
    "The file does not change while it is hashed and read.",
    "That the constants of the generated code are the hashes the readers return (`get_hash()` put into templates) is checked by the bounded stand-in; that producers and consumers compare these constants is proved by the checks of R04 and R05.",
    "The contracts of the readers are those of P01..P04 and W01..W03, with their assumptions.",
]
FRONT = r"impl Store::fn (new|get_hash|add_service_struct)$|impl Parser::fn parse$|impl Struct::fn set_fields$"
FLOW = r"store::impl Store::fn (new|get_hash)$|impl Parser::fn (parse|new)$"


def only(u):
    """of the readers only what they do with the hash is judged here; the rest of their contracts belongs to P01..P04 and W01..W03"""
    for k in list(u.failed):
        if not any("/*H01*/" in m for m in u.failed[k]) and not re.search(r"fn get_hash$", k):
            u.undecided[k] = "fails for another reason than the hash: " + u.failed.pop(k)[0][:160]
    return u


def check(pid):
    v = vk.Verdict(pid)
    v.assumptions = ASSUME
    cli = os.path.join(vk.REPO, "cli")
    rd = lambda *f: "".join(open(os.path.join(vk.ROOT, "spec", x)).read() for x in f)
    h = vk.Task(vk.Unit(pid + "-hash", hashes.rules(cli), threads=2).run)
    p = vk.Task(vk.Unit(pid + "-front", front.rules(cli, lemmas=rd("front_lemmas.rs", "hash_front.rs"), hash=True), threads=3).run)
    w = vk.Task(vk.Unit(pid + "-flow", flow.rules(cli, lemmas=rd("flow_lemmas.rs", "hash_flow.rs"), hash=True), threads=3).run)
    v.add_conc("hashes", hash_run.run(120 if vk.THOROUGH else 20))
    v.add_unit(h.get())
    p, w = only(p.get()), only(w.get())
    v.add_unit(p, lambda k: re.search(FRONT, k), lambda n: "vx_h01" in n)
    v.add_unit(w, lambda k: re.search(FLOW, k), lambda n: "vx_h01" in n)
    v.finish()
