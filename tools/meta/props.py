"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/meta/props.py` in /verif."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TPL = "cli/src/protocol/render/rust/static/"
CODEC = [TPL + x for x in ("protocol.encode.rs", "protocol.decode.rs", "protocol.storage.rs", "protocol.packing.rs", "protocol.buffer.rs")] + ["cli/src/protocol/render/rust/mod.rs"]

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, level=None, note=None, na=None, technique="deductive verification (Verus) of the code of /repo with woven contracts"):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": mechanism}, level=level, note=note, na=na, technique=technique))


NOTE = ("Every obligation of the woven code of the current tree is discharged by Verus for all values; the code proved is generated by the CLI built from the tree "
        "for a reference schema that uses every kind of field. Trusted: contracts of std and bytes shims, allocation bounds, Clone of generated types; other schemas are only "
        "covered by a bounded differential run that always accompanies the proof.")

prop("C01", "Decoding an encoded message gives back the message",
     "For every protocol and every value of every message or enumeration it declares, encoding the value with the generated Rust code and decoding the bytes yields an equal value. "
     "This includes optional, repeated, nested and empty messages, strings with any Unicode text, extreme numbers, and enumerations of messages.",
     ["inputs", "programs"], "all values of all types declared in a protocol",
     "The existing tests encode a few fixed samples; the value space (nesting, lengths, optional combinations, floats) is unbounded.", CODEC,
     "encoders and decoders of the generated protocol module built from the static templates plus the per-schema rendering", "proof", NOTE)
prop("C02", "Encoded bytes follow the fixed wire layout",
     "Every encoded message consists of its fields in order of declaration, each one written as its little-endian 16-bit identifier, a size marker with the payload length, and the payload, with fixed little-endian widths for numbers, "
     "length-prefixed items inside arrays, a variant number before the payload of an enumeration, and nothing for an absent optional value. A value that cannot be represented (no variant chosen, or a length beyond its prefix) makes encoding fail instead of producing other bytes.",
     ["inputs", "programs"], "all values of all types declared in a protocol",
     "Round-trip tests cannot see two compensating mistakes in encoder and decoder, and peers in other languages depend on the exact bytes.", CODEC,
     "encoders of primitives, arrays, options, messages and enumerations; packing of messages", "proof", NOTE)
prop("C03", "Decoding is total: any bytes give a value or an error",
     "Given any byte sequence at all, the generated Rust decoders and the stream reader return either a value or an error: they never panic, overflow, read outside the input, or fail to return. "
     "They accept exactly the well-formed encodings and return the value those bytes denote.",
     ["inputs", "fault_sequences"], "all byte sequences, including truncated, corrupted and hostile ones",
     "Tests feed decoders with what the encoders produced; malformed input from a peer is an infinite set.", CODEC,
     "decoders of every kind of field, the field store, and the stream buffer", "proof", NOTE)
prop("C04", "Fields are matched by identifier, whatever their order",
     "Decoding a message depends only on the mapping from field identifiers to payloads: fields may arrive in any order, fields with identifiers unknown to the message are ignored, a repeated identifier counts once with its last payload, and a missing field makes decoding fail. "
     "A field cut short anywhere makes decoding fail.",
     ["inputs"], "all sequences of fields, known and unknown, in all orders",
     "Existing tests only decode fields in the order the encoder writes them.", CODEC[1:3],
     "the field store built from the body of a message and the per-message decoders that query it", "proof", NOTE)
prop("C05", "Reading a stream does not depend on how it is cut into chunks",
     "However the bytes of a stream are cut into chunks, the reader delivers the same messages with the same headers, in the order they were sent, each exactly once, and keeps exactly the bytes of the incomplete last packet. "
     "An empty or tiny chunk, a chunk that ends inside a header, and a chunk with any number of packets are all covered.",
     ["inputs", "schedules", "histories"], "all byte streams and all ways to cut them into chunks",
     "Tests cut a few streams at fixed points; the number of cuts is exponential in the length of the stream.", [CODEC[4], CODEC[3]],
     "the stream buffer which joins pending bytes with a new chunk and extracts every complete packet", "proof", NOTE)
prop("C06", "Packets keep their identity and foreign packets are rejected",
     "A packed message carries the identifier of its type, the signature of the protocol, the caller's sequence number, a timestamp and the exact length of the body, and the reader hands it out as that very message with those header values. "
     "A packet with another signature, an identifier the protocol does not declare, or a body that does not decode is reported as an error and never delivered as a message.",
     ["inputs", "programs"], "all messages of a protocol, all sequence numbers, all packets",
     "Tests pack a few samples with a few sequence numbers; wrong dispatch between two types shows only for particular pairs.", [CODEC[3], CODEC[4], CODEC[5]],
     "packing of messages, header parsing, and the generated dispatch from identifier to type", "proof", NOTE)
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    import props_more
    props_more.add(prop)
except ImportError:
    pass

prop("T01", "TypeScript and Rust peers read each other's bytes",
     "For every protocol, bytes encoded by the generated TypeScript code decode in the generated Rust code to the same value and the other way round.",
     ["inputs", "programs"], "all values of all types declared in a protocol, in both directions",
     "The existing cross-language tests exchange a fixed set of samples.", ["cli/src/protocol/render/typescript/mod.rs"],
     "TypeScript encoders and decoders generated from the same protocol",
     na="The TypeScript half is outside contract-based deductive verification here: no deductive verifier for TypeScript is installed, and translating the templates into another language by hand would verify a look-alike. C02 pins the bytes of the Rust half for all values.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash bin/setup",
        "hooks": {"guard": "none", "enable": "no hooks are needed: contracts are woven into a copy of the current source on every run", "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": "bash bin/check %s quick" % p["id"], "thorough_cmd": "bash bin/check %s thorough" % p["id"],
                    "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in PROPS if not p["na"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
        "notes": "See DESIGN.md. Every check weaves contracts into the code of the current tree, runs Verus on all of it, and runs a bounded differential test of the same code.",
    }
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


main()
