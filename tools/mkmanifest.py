#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.checks import CHECKS
SER = "src/protobuf/qprotobufserializer.cpp"
SERP = "src/protobuf/qprotobufserializer_p.h"
ABS = "src/protobuf/qabstractprotobufserializer.h"
ABSP = "src/protobuf/qabstractprotobufserializer_p.h"
GEN = "src/generator/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=state, meaning=state, where=files[0])], observe_at=[observe], hook_needed=hook),
                  _t=technique, _n=note))


REF = "Held on every execution explored; the oracle is google::protobuf 3.21 and an independent encoder, sanitizers watch all of it. Says nothing about inputs not generated."

prop("P01", "Binary round trip preserves every value",
     "Serializing any message value with the binary serializer and deserializing the result into a message of the same type yields an equal value, for every field kind (all scalars, enums including unknown numbers, strings, bytes, nested messages up to 100 levels, repeated fields and maps of them). Serializing does not change the message and equal messages give the same bytes again.",
     ["inputs", "programs"], "every message type the schema language offers and every value of its fields",
     "The space of values is unbounded; the tests sample a handful of constants per type.",
     [SER, SERP, ABSP], [("serializeProperty / deserializeProperty", SER), ("per type handlers", SERP), ("object, list, map and enum adaptors", ABSP)],
     "property values of a message object", "serialize()/deserialize() and the generated accessors",
     "sanitized execution with a round-trip monitor over generated values", REF)
prop("P02", "Serialized data is valid protobuf with the same meaning",
     "Whatever value a message holds, the bytes produced by the binary serializer are accepted by any conforming protobuf implementation using the same schema, which reads exactly the values that were set, with no field under an unknown number or wire type.",
     ["inputs"], "every value of every message type", "Interoperability is about all values and field numbers, tests compare with a few recorded byte strings.",
     [SER, SERP], [("encodeHeader, varint, zigzag and length encoding", SERP), ("map pairs, lists", SER)], "serialized bytes", "result of serialize()",
     "differential runtime monitor: google::protobuf reads what the library wrote", REF)
prop("P03", "Every valid encoding of a value is read as that value",
     "Data that a conforming protobuf implementation accepts for the schema is accepted, and read as the same value, whichever legal encoding its writer chose: fields in any order, over-long varints, packed or unpacked or split repeated scalars, sub-messages sent in pieces, repeated singular fields (last one wins), map entries with missing, reordered or extra members.",
     ["inputs"], "every valid encoding of every value", "A value has unboundedly many valid encodings, other writers choose them.",
     [SER, SERP, ABSP], [("deserializeProperty, deserializeMapPair", SER), ("varint and list decoding", SERP)], "message contents after deserialization", "deserialize() and accessors",
     "differential runtime monitor: an independent encoder writes, google::protobuf says what it means", REF)
prop("P04", "Hostile input cannot corrupt, crash, leak, hang or exhaust the process",
     "Deserializing arbitrary bytes either succeeds or ends with a C++ exception, never with an access outside of the input, undefined behaviour, a leak, an allocation out of proportion to the input, an exhausted stack or an endless loop. The serializer and the message stay usable afterwards.",
     ["inputs", "histories"], "every byte string, given to every message type, followed by any further use", "Malformed inputs are unbounded and memory errors stay silent without instrumentation.",
     [SER, SERP, "src/protobuf/qprotobufselfcheckiterator.h"], [("bounds checked iterator", "src/protobuf/qprotobufselfcheckiterator.h"), ("skipSerializedFieldBytes", SER), ("deserializeLengthDelimited", SERP)],
     "input buffer, heap", "deserialize() under sanitizers, allocation meter",
     "ASan/UBSan/LSan with allocation and depth monitors under a mutation workload", "Held on every input tried, in exactly sized buffers; sanitizers see instrumented code and intercepted calls only.")
prop("P05", "Unknown fields never disturb the known ones",
     "Fields that the receiver's schema does not know, of any number and any skippable wire type, at any place and nesting level, are ignored: deserialization succeeds and every known field has the value it has without them, so that data of a newer schema version can be read by an older one.",
     ["inputs", "programs"], "every message and every set of unknown fields in it", "Combinations of unknown fields, positions and neighbours are unbounded.",
     [SER], [("skipSerializedFieldBytes", SER), ("property lookup by number", SER)], "message contents", "deserialize() and accessors",
     "runtime monitor comparing with the value without the unknown fields", REF)
prop("P06", "Deserialization replaces the previous contents completely",
     "After successful deserialization into an already used message its value depends on the data alone: fields absent from the data have their default values, lists and maps keep no earlier elements. Other messages, earlier copies included, keep their values.",
     ["histories", "inputs"], "every earlier value of the message and every data", "Needs pairs of values, tests always start from a fresh or nearly fresh message.",
     [ABS, ABSP], [("deserialize into a fresh value, then assign", ABS)], "message contents", "deserialize() and accessors",
     "runtime monitor over pairs of generated values", REF)
prop("P07", "Malformed data is reported, not silently accepted",
     "When data is not a valid encoding (truncated value, length beyond the end, over-long varint, invalid field number or wire type, a list or map entry that does not end where its length says), deserialization ends with an exception rather than with a made-up value.",
     ["inputs"], "every malformed byte string for every message type", "Ways to be malformed are unbounded and each field kind has its own reader.",
     [SER, SERP, "src/protobuf/qprotobufselfcheckiterator.h"], [("decodeHeader", SERP), ("deserializeLength", SERP), ("bounds checked iterator", "src/protobuf/qprotobufselfcheckiterator.h")],
     "none", "exception out of deserialize()",
     "runtime monitor: two independent judges decide what is malformed", "Held on every input tried. Only data rejected by both google::protobuf and the structural judge counts as malformed.")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
m = dict(version=1, setup_cmd="python3 run_check.py --setup",
         hooks=dict(guard="none", enable="no hooks: the checks observe the public API, the wire, the object tree and the process from outside", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3 run_check.py %s quick" % p["id"], thorough_cmd="python3 run_check.py %s thorough" % p["id"],
                      technique=p["_t"], level="exploration", level_note=p["_n"]) for p in P if p["id"] in CHECKS and p["id"] not in na],
         not_applicable=[n for n in NOT_APPLICABLE] + [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in CHECKS and p["id"] not in na])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    try:
        jsonschema.validate({k: v for k, v in p.items() if not k.startswith("_")}, s)
    except Exception as e:
        print(p["id"], str(e)[:500])
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(m["checks"]), "checks")
