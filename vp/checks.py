"""One function per property: what is built, which workload runs under which monitors, how much of it."""
import os, shutil
from . import build, gen
from .runner import Check, Job

CORE = os.path.join(build.BUILD, "gen", "core", "core.pb")


def setup():
    for tool in (build.CMAKE, "/usr/bin/ninja", "/usr/bin/protoc"):
        if not os.path.exists(tool):
            print("missing", tool)
            return 1
    build.stage()
    build.core_schema()
    print("setup: schemas and glue generated")
    return 0


def shards(program, mode, seed, cases, san="asan", n=8, timeout=400, extra=(), name=None):
    # seeds of different shards and different VERIF_SEEDs never coincide
    return [Job(program, ["--mode", mode, "--seed", str(seed * 1000 + i), "--cases", str(cases), "--desc", CORE, "--shard", str(i), "--shards", str(n)] + list(extra),
                "%s-%s-%d" % (name or os.path.basename(program), mode, i), san, timeout) for i in range(n)]


SAN_NOTE = "AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer watch every execution (Qt and system libraries are not instrumented; interceptors cover what they do to heap memory)"


def wire(prop, mode, quick, thorough, rule, assumptions=(), part="wire"):
    def f(tier, seed):
        c = Check(prop, tier, seed, rule, list(assumptions) + [SAN_NOTE])
        b, t = build.prepare("asan", ["core", part], ["vp" + part])
        c.notes["build_s"] = round(t, 1)
        c.run(shards(os.path.join(b, "vp" + part), mode, seed, quick if tier == "quick" else thorough, timeout=240 if tier == "quick" else 3000))
        return c.finish()
    return f


def grpc(prop, mode, quick, thorough, rule, assumptions=()):
    def f(tier, seed):
        c = Check(prop, tier, seed, rule, list(assumptions) + ["a scripted HTTP/2 server in the same process answers; its own log of what it received and wrote is the reference", SAN_NOTE])
        b, t = build.prepare("asan", ["core", "grpc"], ["vpgrpc"])
        c.notes["build_s"] = round(t, 1)
        jobs = []
        for i in range(8):
            channel = "http2" if i % 2 else "native"
            n = (quick if tier == "quick" else thorough)
            jobs.append(Job(os.path.join(b, "vpgrpc"), ["--mode", mode, "--channel", channel, "--seed", str(seed * 1000 + i), "--cases", str(n)],
                            "vpgrpc-%s-%s-%d" % (mode, channel, i), "asan", 240 if tier == "quick" else 3400))
        c.run(jobs)
        return c.finish()
    return f


def types(prop, mode, quick, thorough, rule, assumptions=()):
    def f(tier, seed):
        c = Check(prop, tier, seed, rule, list(assumptions) + [SAN_NOTE])
        b, t = build.prepare("asan", ["core", "qtwk"], ["vpqtwk"])
        d = build.types_schema()
        c.notes["build_s"] = round(t, 1)
        n = quick if tier == "quick" else thorough
        c.run([Job(os.path.join(b, "vpqtwk"), ["--mode", mode, "--seed", str(seed * 1000 + i), "--cases", str(n), "--desc", os.path.join(d, "types.pb"), "--flat", os.path.join(d, "flat.pb")],
                   "vpqtwk-%s-%d" % (mode, i), "asan", 300 if tier == "quick" else 3000) for i in range(8)])
        return c.finish()
    return f


def qml(tier, seed):
    c = Check("P20", tier, seed, "messages declared in QML, made and changed by script, C++ and deserialization, read by script and shown through bindings after every step; ordinary numbers converted and written to properties; distinct by operation, place and value",
              ["fields script can see: 32 bit integers, bool, string, float, double, enums, messages and lists of them (64 bit integers, bytes and maps have no full script form)", SAN_NOTE])
    b, t = build.prepare("asan", ["core", "qml"], ["vpqml"])
    c.notes["build_s"] = round(t, 1)
    n = 400 if tier == "quick" else 12000
    c.run([Job(os.path.join(b, "vpqml"), ["--mode", "qml", "--seed", str(seed * 1000 + i), "--cases", str(n), "--desc", os.path.join(build.BUILD, "gen", "qml", "qml.pb"),
                                          "--imports", os.path.join(b, "qtpb", "src", "protobuf", "quick")], "vpqml-%d" % i, "asan", 240 if tier == "quick" else 3000) for i in range(8)])
    return c.finish()


def grpcqml(tier, seed):
    c = Check("P21", tier, seed, "calls made by script (result callback or result object, with and without error callback, with and without a channel) answered in every way, engines, clients, arguments and result objects destroyed meanwhile; GrpcStream elements that end, fail and recover, are disabled, changed, refused or destroyed; over both channels; distinct by kind of answer, cuts, scenario and value",
              ["a scripted HTTP/2 server in the same process answers; its own log of what it received and wrote is the reference", SAN_NOTE])
    b, t = build.prepare("asan", ["core", "grpc", "grpcqml"], ["vpgrpcqml"])
    c.notes["build_s"] = round(t, 1)
    quick = os.path.join(b, "qtpb", "src")
    jobs = []
    for i in range(8):
        channel = "http2" if i % 2 else "native"
        jobs.append(Job(os.path.join(b, "vpgrpcqml"), ["--mode", "qml", "--channel", channel, "--seed", str(seed * 1000 + i), "--cases", str(90 if tier == "quick" else 3000),
                                                       "--imports", os.path.join(quick, "protobuf", "quick"), "--imports2", os.path.join(quick, "grpc", "quick")],
                        "vpgrpcqml-%s-%d" % (channel, i), "asan", 240 if tier == "quick" else 3400))
    c.run(jobs)
    return c.finish()


def concurrent(tier, seed):
    c = Check("P11", tier, seed, "several threads using message types and serializers at the same moment, with the first use in the process in most runs, handlers registered meanwhile, serializers shared or not; distinct by type and value handled concurrently",
              ["ThreadSanitizer sees the library, generated code and harness; Qt's locks are annotated by interposition, the inside of Qt is not instrumented"])
    b, t = build.prepare("tsan", ["core", "conc"], ["vpconc"])
    c.notes["build_s"] = round(t, 1)
    runs, cases = (40, 8) if tier == "quick" else (400, 40)
    c.run([Job(os.path.join(b, "vpconc"), ["--seed", str(seed * 1000 + i), "--cases", str(cases), "--desc", CORE, "--shard", str(i), "--tier", tier], "vpconc-%d" % i, "tsan", 90 if tier == "quick" else 400)
           for i in range(runs)], workers=4)
    return c.finish()


def plugin(tier, seed):
    c = Check("P23", tier, seed, "histories of loading serializer plugins (good, twice, under two names, of a taken name, broken, foreign, missing), asking for serializers and metadata and writing and reading messages with them, one process each, in folders put together at random; distinct by history",
              ["the metadata compiled into the eight plugins of the harness is the reference; plugins that are not serializer plugins only have to be refused", SAN_NOTE])
    b, t = build.prepare("asan", ["plugin"], ["vpplugin"])
    c.notes["build_s"] = round(t, 1)
    scratch = os.path.join(build.BUILD, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    runs, cases = (48, 300) if tier == "quick" else (2000, 1000)
    c.run([Job(os.path.join(b, "vpplugin"), ["--seed", str(seed * 10000 + i), "--cases", str(cases), "--plugins", os.path.join(b, "plugins"), "--scratch", scratch], "vpplugin-%d" % i, "asan", 120)
           for i in range(runs)])
    return c.finish()


CHECKS = {
    "P01": wire("P01", "roundtrip", 1500, 40000,
                "values of every message type of a schema with every field kind, filled with boundary-biased random contents; non-trivial: at least one field differs from its default; distinct by type and canonical value"),
    "P02": wire("P02", "encode", 1500, 40000,
                "random values set through the C++ API, serialized, parsed by google::protobuf; non-trivial: at least one field differs from its default; distinct by type and canonical value",
                ["google::protobuf 3.21 dynamic messages are the reference reader"]),
    "P03": wire("P03", "decode", 1500, 40000,
                "valid encodings written by an independent encoder (overlong varints, packed/unpacked/split lists, repeated singular fields, split sub-messages, shuffled fields, odd map entries) and accepted by google::protobuf; distinct by type and bytes",
                ["google::protobuf 3.21 decides which encodings are valid and what they mean"]),
    "P04": wire("P04", "hostile", 1500, 40000,
                "random, mutated, truncated, length-lying and deeply nested byte strings in exactly sized allocations; distinct by type and bytes"),
    "P05": wire("P05", "unknown", 1500, 40000,
                "messages of a newer schema or with random unknown fields of every skippable wire type inserted at every level; distinct by type and bytes"),
    "P06": wire("P06", "replace", 1500, 40000,
                "a message already holding one random value is deserialized from another (or from malformed data); distinct by pair of values"),
    "P07": wire("P07", "malformed", 2500, 60000,
                "byte strings made by corrupting valid messages; non-trivial: both google::protobuf and a more lenient structural judge reject them; distinct by type and bytes",
                ["input is malformed only if google::protobuf and the independent structural judge both reject it (UTF-8, nesting depth and groups are not judged)"]),
    "P08": wire("P08", "values", 400, 12000,
                "random sequences of construction, copy, move, assignment, typed and property writes, in-place changes of sub-messages and transfers over a pool of objects; after each step every object is compared with its model and every pair with ==; distinct by type and values of the pool", part="value"),
    "P09": wire("P09", "notify", 600, 20000,
                "random writes (setters, properties, copy and move assignment, deserialization) with every change signal of the object recorded; non-trivial: a field changed; distinct by operation, field, old and new value", part="value"),
    "P10": wire("P10", "ownership", 500, 16000,
                "random sequences of handing over sub-messages (owned by the message or by the script engine), replacing, nulling, copying, moving, collecting and destroying; distinct by type and sequence", part="value"),
    "P11": concurrent,
    "P12": types("P12", "qttypes", 1200, 60000,
                 "messages with fields of all 22 Qt types: random values set, serialized, read by google::protobuf with the published schema and read back; and encodings of other writers read; distinct by type and contents",
                 ["local date-times with millisecond precision (the schema carries no time zone), 8 bit colours, rectangles within the integer range, pictures compared by pixels; Qt compares its floating point types with a tolerance, so generated components are not closer to each other than that",
                  "repeated and map fields of Qt types are not supported by the generator"]),
    "P13": types("P13", "wellknown", 4000, 150000,
                 "values of all 26 well-known message types written by google::protobuf, read, copied, compared and written by the library, read by google::protobuf; QDateTime and Timestamp converted in both directions over the range of Timestamp; distinct by type and value"),
    "P14": gen.check,
    "P20": qml,
    "P21": grpcqml,
    "P23": plugin,
    "P15": grpc("P15", "unary", 220, 6000,
                "calls (asynchronous, with callback, synchronous, from other threads; over the HTTP/2 and the native channel) answered with results, statuses, resets, malformed and truncated bodies cut and delayed in every way, or aborted; distinct by kind of answer, way of calling, cuts and value"),
    "P16": grpc("P16", "deliver", 130, 4000,
                "server streams of 0 to 40 messages, cut into DATA frames and TCP segments in every way, ended, failed, aborted or left open, one to four at a time, some with a second receiver; distinct by cuts, end and bytes"),
    "P17": grpc("P17", "lifecycle", 128, 3000,
                "sixteen kinds of histories of subscriptions (failure and retry, streams of one client ending one by one, abort at every stage, repeated subscription, server end, replaced channel, broken connection, late server, undecodable message, work inside slots, deleted client, long silence) run concurrently with random timing; distinct by kind and timed trace",
                ["a closed TCP connection is only exercised on the native channel: Qt 5.15 does not report it to HTTP/2 replies in progress"]),
    "P24": grpc("P24", "secure", 48, 1500,
                "channels with TLS settings (trusting one of two authorities, nobody, or anybody; with and without client certificate), one to three at a time, against servers with good, foreign, self-signed, expired, future and misnamed certificates, servers that demand client certificates and servers without TLS; distinct by server, settings, outcome and content",
                ["the TLS implementations of Qt and gRPC (OpenSSL) are trusted", "a connection ended by a server that rejects the client certificate is not reported by Qt 5.15 to HTTP/2 streams: only calls (which time out) are made then"]),
    "P18": grpc("P18", "lifetime", 90, 3000,
                "random sequences of creating, attaching, calling, subscribing, reading, aborting, releasing and destroying clients, channels, replies and streams, then destruction in every order; distinct by sequence"),
    "P19": grpc("P19", "requests", 120, 4000,
                "requests of random content over every way of calling, two services, both channels, with and without credentials, as recorded by the server; distinct by path, content and credentials"),
}
