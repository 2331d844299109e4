"""Random schemas through the generator under test: what it writes is compared, compiled and run under the wire and value monitors."""
import os, random, re, shutil, subprocess, time
from . import build
from .gen_schema import OPTIONS, random_schema
from .runner import Check, Job, sanitizer_reports
from .schema import Message, camel, glue, upper1

ROOT = os.path.join(build.BUILD, "rnd")
SAN = build.SANITIZERS["asan"]
PROTO2 = 'syntax = "proto2";\npackage old.syntax;\nmessage Legacy { required int32 x = 1; }\n'


def option_string(opts):
    o = ["MULTI" if "MULTI" in opts else "SINGLE"]
    o += [x for x in opts if x not in ("MULTI", "EXTRA_NAMESPACE")]
    if "MULTI" in opts:
        o.append("FOLDER")
    if "EXTRA_NAMESPACE" in opts:
        o.append('EXTRA_NAMESPACE="xtra"')
    return ":".join(o)


def generate(plugin, src, out, files, opts):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    return build.run(["protoc", "--plugin=protoc-gen-qtprotobufgen=" + plugin, "--qtprotobufgen_out=" + out, "-I" + src] + files, cwd=src, timeout=120,
                     extra=dict(QT_PROTOBUF_OPTIONS=option_string(opts), UBSAN_OPTIONS="print_stacktrace=1"))


def tree(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            with open(os.path.join(root, f), "rb") as h:
                out[os.path.relpath(os.path.join(root, f), d)] = h.read()
    return out


def headers(files, opts):
    if "MULTI" not in opts:
        return [f.name.replace(".proto", ".qpb.h") for f in files]
    return ["globalenums.h"] + ["%s/%s.h" % (f.package.replace(".", "/"), m.name.lower()) for f in files for m in f.messages]


def shape(files, opts):
    """What the declarations have to look like, checked by the compiler and against the meta-object system."""
    c = '#include "glue_rnd.h"\n#include "types.h"\n#include "common.h"\n#include <QMetaEnum>\n#include <QCoreApplication>\nnamespace vp {\n'
    c += "static void check(const QMetaEnum &e, const char *name, std::initializer_list<std::pair<const char *, int>> v) {\n"
    c += '  if (!e.isValid() || e.keyCount() != int(v.size())) { result.violation("meta enum", std::string(name) + " has other keys than declared", name); return; }\n'
    c += "  for (auto &p : v) { bool ok = false; if (e.keyToValue(p.first, &ok) != p.second || !ok) "
    c += 'result.violation("meta enum", std::string(name) + "::" + p.first + " has another value than declared", name); }\n'
    c += '  result.evaluations++; result.count("enums_compared"); result.nontrivial(name);\n}\n'
    c += "static void property(const QMetaObject &m, const char *type, const char *name, const char *signal) {\n"
    c += "  int i = m.indexOfProperty(name);\n"
    c += '  if (i < 0) { result.violation("property", std::string(type) + " has no property " + name, type); return; }\n'
    c += "  QMetaProperty p = m.property(i);\n"
    c += '  if (!p.isReadable() || !p.isWritable() || !p.hasNotifySignal() || p.notifySignal().name() != signal) result.violation("property", std::string(type) + "." + name + " is not readable, writable and notified by " + signal, type);\n'
    c += '  result.evaluations++; result.count("properties_compared"); result.nontrivial(std::string(type) + name);\n}\n'
    body = ""
    enums = [e for f in files for e in f.enums] + [e for f in files for m in f.all_messages() for e in m.enums]
    for e in enums:
        scope = e.cpp().rsplit("::", 1)[0]
        for n, v in e.values:
            c += "static_assert(int(::%s::%s) == %s, \"\");\n" % (scope, upper1(n), "(-2147483647 - 1)" if v == -2147483648 else str(v))
        body += '  check(QMetaEnum::fromType<::%s>(), "%s", {%s});\n' % (e.cpp(), e.proto_name(), ", ".join(
            '{"%s", int(::%s::%s)}' % (upper1(n), scope, upper1(n)) for n, _ in e.values))
    for f in files:
        for m in f.all_messages():
            if "FIELDENUM" in opts:
                for x in m.fields:
                    c += "static_assert(int(::%s::%sProtoFieldNumber) == %d, \"\");\n" % (m.cpp(), upper1(x.getter()), x.number)
                body += '  check(QMetaEnum::fromType<::%s::QtProtobufFieldEnum>(), "%s fields", {%s});\n' % (m.cpp(), m.proto_name(), ", ".join(
                    '{"%sProtoFieldNumber", %d}' % (upper1(x.getter()), x.number) for x in m.fields))
            for x in m.fields:
                body += '  property(::%s::staticMetaObject, "%s", "%s", "%s");\n' % (m.cpp(), m.proto_name(), x.prop(), x.signal())
            body += '  if (QMetaType::type("%s") == QMetaType::UnknownType) result.violation("registration", "%s is not known to the meta type system", "%s");\n' % (m.cpp(), m.cpp(), m.cpp())
            body += '  result.evaluations++; result.nontrivial("%s"); result.see("types", "%s");\n' % (m.proto_name(), m.proto_name())
    c += "static void all() {\n%s}\nstruct Hook { Hook() { extraMode() = all; } } hook;\n}\n" % body
    return c


def words(text):
    return re.sub(r"[^A-Za-z0-9$%]+", " ", text).strip()


def comments_missing(files, gen):
    text = words(b"\n".join(gen[k] for k in sorted(gen) if k.endswith(".h")).decode("utf-8", "replace"))
    out = []
    for f in files:
        for m in f.all_messages():
            for owner, c in [(m.proto_name(), m.comment)] + [(m.proto_name() + "." + x.name, x.comment) for x in m.fields]:
                if c and words(c) not in text:
                    out.append((owner, c))
    return out


def ninja(d, files, opts, includes, libs):
    gen = os.path.join(d, "gen")
    rel = sorted(tree(gen))
    inc = ["-I" + gen] + includes
    if "MULTI" not in opts:
        inc += ["-I" + os.path.join(gen, x) for x in sorted({os.path.dirname(r) for r in rel}) if x]
    t = "cflags = -std=c++14 -fPIC -w %s -I%s -I%s %s\n" % (SAN, d, os.path.join(build.VERIF, "harness"), " ".join(inc))
    t += "rule cc\n command = g++ $cflags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n"
    t += "rule moc\n command = /usr/lib/qt5/bin/moc $mocinc $in -o $out\n"
    t += "rule link\n command = g++ %s $in -o $out $libs\n" % SAN
    t += "mocinc = %s\n" % " ".join(inc)
    objs = []
    for r in rel:
        o = "o/" + r.replace("/", "_")
        if r.endswith(".h"):
            t += "build %s.moc.cpp: moc %s\nbuild %s.moc.o: cc %s.moc.cpp\n" % (o, os.path.join(gen, r), o, o)
            objs.append(o + ".moc.o")
        elif r.endswith(".cpp"):
            t += "build %s.o: cc %s\n" % (o, os.path.join(gen, r))
            objs.append(o + ".o")
    for g in sorted(os.listdir(d)):
        if g.endswith(".cpp"):
            t += "build o/%s.o: cc %s\n" % (g, os.path.join(d, g))
            objs.append("o/%s.o" % g)
    if not libs:
        t += "rule touch\n command = touch $out\nbuild wire: touch %s\nbuild value: touch wire\n" % " ".join(objs)
    for kind in libs:
        t += "build %s: link %s\n libs = %s\n" % (kind, " ".join(objs), libs[kind])
    build.write(os.path.join(d, "build.ninja"), t)


def check(tier, seed):
    c = Check("P14", tier, seed,
              "random proto3 schemas (1-3 files, packages, nested messages and enums, every scalar type, lists, maps, far field numbers, odd names and comments, services) times generator options; "
              "generated twice and compared, compiled, linked and run under the wire and value monitors; distinct by type, value or declaration",
              ["schemas stay within what the generator supports (DESIGN.md lists what it does not)", "g++ 13, moc 5.15 and google::protobuf 3.21 are the judges",
               "AddressSanitizer and UndefinedBehaviorSanitizer watch the generator and the generated code"])
    t = time.time()
    build.stage()
    build.core_schema()
    b = build.configure("asan", ["gen"], ["-DVP_SANITIZE_GENERATOR=ON"], "gen14")
    build.make(b, ["vpgen_wire", "vpgen_value", "qtprotobufgen", "Grpc"])
    plugin = os.path.join(b, "qtpb", "src", "generator", "qtprotobufgen")
    qt = subprocess.check_output(["pkg-config", "--cflags", "--libs", "Qt5Core", "Qt5Qml", "Qt5Network", "Qt5Gui"]).decode().split()
    src = os.path.join(build.BUILD, "src", "src")
    includes = ["-I" + os.path.join(src, x) for x in ("protobuf", "grpc", "protobuf/quick", "grpc/quick")] + ["-I" + os.path.join(b, "qtpb", "include", x) for x in ("Protobuf", "Grpc")] + [x for x in qt if x.startswith(("-I", "-D"))]
    shared = []
    for root, _, fs in os.walk(os.path.join(b, "qtpb")):
        shared += [os.path.join(root, x) for x in fs if re.match(r"lib\w*(Protobuf|Grpc)\.so$", x) and "QtTypes" not in x]
    common = os.path.join(b, "libvpcommon.a")
    libs = {k: " ".join([os.path.join(b, "libvpgen_%s.a" % k), common] + shared + ["-Wl,-rpath," + ":".join(sorted({os.path.dirname(x) for x in shared}))]
                        + [x for x in qt if x.startswith("-l")] + ["-lprotobuf", "-lpthread"]) for k in ("wire", "value")}
    c.notes["build_s"] = round(time.time() - t, 1)
    n = 8 if tier == "quick" else 104
    cases = 60 if tier == "quick" else 400
    jobs = []
    ids = list(range(n))
    first = random.Random(seed).randrange(len(OPTIONS))
    shutil.rmtree(ROOT, ignore_errors=True)
    dirs, good = {}, []
    for i in ids:
        opts = OPTIONS[(first + i) % len(OPTIONS)]
        d = os.path.join(ROOT, "s%d" % i)
        os.makedirs(d)
        files = random_schema(seed * 100003 + i, opts)
        if "EXTRA_NAMESPACE" in opts:
            for f in files:
                f.extra_ns = "xtra"
        text = ""
        for f in files:
            build.write(os.path.join(d, f.name), f.emit())
            text += "// %s\n%s" % (f.name, f.emit())
        names = [f.name for f in files]
        replay = dict(options=option_string(opts), schema=text)
        build.run(["protoc", "-I.", "--include_imports", "--descriptor_set_out=rnd.pb"] + names, cwd=d)
        gens = []
        orders = [names, names] + ([names[::-1]] if "MULTI" not in opts else [])
        bad = False
        for k, order in enumerate(orders):
            out = os.path.join(d, "gen" if k == 0 else "gen%d" % k)
            rc, log = generate(plugin, d, out, order, opts)
            for key, rep in sanitizer_reports(log):
                c.violation("generator " + key, rep, replay)
                bad = True
            if rc:
                c.violation("generator failed", "the generator refused or died on a supported schema with %s\n%s" % (option_string(opts), log[-1500:]), replay)
                bad = True
                break
            gens.append(tree(out))
            if k:
                shutil.rmtree(out)
        c.evaluations += len(gens)
        c.counters["generator_runs"] = c.counters.get("generator_runs", 0) + len(gens)
        if bad:
            continue
        for g in gens[1:]:
            if g != gens[0]:
                diff = sorted(k for k in set(g) | set(gens[0]) if g.get(k) != gens[0].get(k))
                c.violation("generator output differs", "two runs over the same schema wrote different files: %s" % ", ".join(diff), replay)
        if "COMMENTS" in opts:
            for owner, text in comments_missing(files, gens[0]):
                c.violation("comment lost", "the comment of %s is not in the generated headers: %r" % (owner, text), replay)
            c.counters["comments_compared"] = c.counters.get("comments_compared", 0) + sum(1 for f in files for m in f.all_messages() for x in [m] + m.fields if x.comment)
        for name, t2 in glue(files, headers(files, opts), "rnd", 1).items():
            build.write(os.path.join(d, name), t2)
        build.write(os.path.join(d, "shape.cpp"), shape(files, opts))
        ninja(d, files, opts, includes, libs)
        dirs[d] = replay
        c.sets.setdefault("options", set()).add(option_string(opts))
        c.sets.setdefault("schemas", set()).add("%d messages, %d enums, %d services" % (sum(1 for f in files for _ in f.all_messages()), sum(len(f.enums) for f in files), sum(1 for f in files if f.services)))
    # a schema in the older syntax is refused
    d2 = os.path.join(ROOT, "old")
    os.makedirs(d2)
    build.write(os.path.join(d2, "old.proto"), PROTO2)
    for opts in ([], ["MULTI"]):
        rc, log = generate(plugin, d2, os.path.join(d2, "gen"), ["old.proto"], opts)
        c.evaluations += 1
        if rc == 0:
            c.violation("proto2 accepted", "a proto2 schema was translated instead of refused", dict(schema=PROTO2))
    # the well-known types, one file per message
    wk = os.path.join(ROOT, "wk")
    os.makedirs(wk)
    rc, log = generate(plugin, "/usr/include", os.path.join(wk, "gen"), ["google/protobuf/%s.proto" % x for x in ("timestamp", "duration", "wrappers", "field_mask", "source_context", "any", "empty")], ["MULTI"])
    wkreplay = dict(options="MULTI:FOLDER", schema="google/protobuf: timestamp, duration, wrappers, field_mask, source_context, any, empty")
    c.evaluations += 1
    if rc:
        c.violation("generator failed", "the generator refused or died on the well-known types with MULTI:FOLDER\n%s" % log[-1500:], wkreplay)
    else:
        ninja(wk, [], ["MULTI"], includes, {})
        dirs[wk] = wkreplay
    # one ninja file over all of them, so that all cores are used
    t = time.time()
    top = "".join("subninja %s\n" % os.path.join(d, "build.ninja") for d in dirs)
    for d in dirs:
        with open(os.path.join(d, "build.ninja")) as f:
            text = f.read()
        text = re.sub(r"(?<=[ \n])o/", os.path.join(d, "o") + "/", text)
        text = re.sub(r"^build (wire|value):", lambda m: "build %s:" % os.path.join(d, m.group(1)), text, flags=re.M)
        text = text.replace(": touch wire\n", ": touch %s\n" % os.path.join(d, "wire"))
        with open(os.path.join(d, "build.ninja"), "w") as f:
            f.write(text)
    build.write(os.path.join(ROOT, "build.ninja"), "ninja_required_version = 1.5\n" + top)
    rc, log = build.run(["ninja", "-C", ROOT, "-j8", "-k0"], timeout=700 if tier == "quick" else 6000, log=os.path.join(build.BUILD, "build-rnd.log"))
    c.notes["compile_s"] = round(time.time() - t, 1)
    for d, replay in dirs.items():
        if not (os.path.exists(os.path.join(d, "wire")) and os.path.exists(os.path.join(d, "value"))):
            errs = [l for l in log.split("\n") if ": error" in l and d + "/" in l or l.startswith("FAILED: " + d + "/") or "undefined reference" in l]
            if not errs and rc == 0:
                continue
            c.violation("does not compile " + os.path.basename(d), "code generated with %s does not compile or link:\n%s" % (replay["options"], "\n".join(errs[:8])), replay)
            continue
        good.append(d)
        if d == wk:
            continue
        for kind, mode, k in (("wire", "shape", 1), ("wire", "roundtrip", cases), ("wire", "encode", cases), ("wire", "decode", cases), ("wire", "unknown", cases), ("value", "values", cases // 4), ("value", "notify", cases // 2)):
            jobs.append(Job(os.path.join(d, kind), ["--mode", mode, "--seed", str(seed * 1000), "--cases", str(k), "--desc", os.path.join(d, "rnd.pb")],
                            "gen-%s-%s" % (os.path.basename(d), mode), "asan", 200))
    c.counters["schemas_compiled"] = len(good)
    if not c.violations:
        c.run(jobs)
    rc = c.finish()
    shutil.rmtree(ROOT, ignore_errors=True)
    return rc
