"""Schema model: one Python description of a set of .proto files, from which we emit
(a) the .proto text given to the generator under test and to protoc, and
(b) C++ glue between the generated Qt classes (through their typed public API) and
    google::protobuf reflection messages (the oracle's representation).

Only names documented as part of the generated public API are used in the glue."""

SCALARS = ["double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
           "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"]
NUMERIC = SCALARS[:12]
KEYS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64",
        "fixed32", "fixed64", "sfixed32", "sfixed64", "string"]
RESERVED = {"id", "property", "import"}


def camel(name):
    """google camelcase_name: drop underscores, upper-case what follows; first letter lower."""
    out, up = "", False
    for ch in name:
        if ch == "_":
            up = True
        elif up:
            out += ch.upper()
            up = False
        else:
            out += ch
    return out[:1].lower() + out[1:]


def upper1(s):
    return s[:1].upper() + s[1:]


class Enum:
    def __init__(self, name, values):
        self.name, self.values = name, values       # [(name, number)]
        self.deprecated = set()                     # names of values
        self.parent = None
        self.file = None

    def proto_name(self):
        return (self.parent.proto_name() if self.parent else self.file.package) + "." + self.name

    def cpp(self):
        if self.parent:
            return self.parent.cpp() + "::" + self.name
        return self.file.cpp_ns() + "::" + self.name + "Gadget::" + self.name

    def emit(self, ind):
        p = "  " * ind
        s = p + "enum %s {\n" % self.name
        if len(set(v for _, v in self.values)) != len(self.values):
            s += p + "  option allow_alias = true;\n"
        for n, v in self.values:
            s += p + "  %s = %d%s;\n" % (n, v, " [deprecated = true]" if n in self.deprecated else "")
        return s + p + "}\n"


class Field:
    def __init__(self, name, number, typ, label="one", key=None, comment=None):
        self.name, self.number, self.typ, self.label, self.key = name, number, typ, label, key
        self.comment = comment
        self.opts = []

    def type_proto(self, t):
        return t if isinstance(t, str) else "." + t.proto_name()

    def emit(self, ind):
        p = "  " * ind
        t = self.type_proto(self.typ)
        c = ""
        if self.comment:
            c = "".join(p + "// " + l + "\n" for l in self.comment.split("\n"))
        o = " [%s]" % ", ".join(self.opts) if self.opts else ""
        if self.label == "map":
            return c + p + "map<%s, %s> %s = %d%s;\n" % (self.key, t, self.name, self.number, o)
        return c + p + ("repeated " if self.label == "rep" else "") + "%s %s = %d%s;\n" % (t, self.name, self.number, o)

    def getter(self):
        n = camel(self.name)
        return n + "_proto" if n in RESERVED else n

    def setter(self):
        return "set" + upper1(self.getter())

    def signal(self):
        return self.getter() + "Changed"

    def prop(self):
        """name of the (C++ visible) Qt property holding the value"""
        if self.label == "rep" and isinstance(self.typ, Message):
            return self.getter() + "Data"
        return self.getter()


class Message:
    def __init__(self, name, fields=None, messages=None, enums=None, comment=None):
        self.name = name
        self.fields = fields or []
        self.messages = messages or []
        self.enums = enums or []
        self.parent = None
        self.file = None
        self.comment = comment
        self.reserved = set()
        self.extra = []         # further statements: options, reserved ranges
        for m in self.messages:
            m.parent = self
        for e in self.enums:
            e.parent = self

    def set_file(self, f):
        self.file = f
        for m in self.messages:
            m.set_file(f)
        for e in self.enums:
            e.file = f

    def proto_name(self):
        return (self.parent.proto_name() if self.parent else self.file.package) + "." + self.name

    def cpp(self):
        return (self.parent.cpp() if self.parent else self.file.cpp_ns()) + "::" + self.name

    def emit(self, ind=0):
        p = "  " * ind
        s = ""
        if self.comment:
            s += "".join(p + "// " + l + "\n" for l in self.comment.split("\n"))
        s += p + "message %s {\n" % self.name
        for e in self.enums:
            s += e.emit(ind + 1)
        for m in self.messages:
            s += m.emit(ind + 1)
        for f in self.fields:
            s += f.emit(ind + 1)
        for x in self.extra:
            s += p + "  " + x + "\n"
        return s + p + "}\n"

    def all(self):
        for m in self.messages:
            yield from m.all()
        yield self


class File:
    def __init__(self, name, package, messages=None, enums=None, imports=None, services="", extra_ns=""):
        self.name, self.package = name, package
        self.messages = messages or []
        self.enums = enums or []
        self.imports = imports or []
        self.services = services
        self.extra_ns = extra_ns
        self.options = []
        for m in self.messages:
            m.set_file(self)
        for e in self.enums:
            e.file = self

    def cpp_ns(self):
        ns = self.package.replace(".", "::")
        return self.extra_ns + "::" + ns if self.extra_ns else ns

    def emit(self):
        s = 'syntax = "proto3";\n'
        if self.package:
            s += "package %s;\n" % self.package
        for i in self.imports:
            s += 'import "%s";\n' % i
        for o in self.options:
            s += "option %s;\n" % o
        for e in self.enums:
            s += e.emit(0)
        for m in self.messages:
            s += m.emit(0)
        return s + self.services

    def all_messages(self):
        for m in self.messages:
            yield from m.all()


def glue(files, headers, ident, parts=1):
    """C++ glue for the messages of the files, as `parts` translation units + one declarations header.
    Returns {filename: text}."""
    msgs = [m for f in files for m in f.all_messages()]
    out = {}
    h = "#pragma once\n#include \"glue.h\"\n"
    for x in headers:
        h += '#include "%s"\n' % x
    h += "namespace vp {\n"
    for m in msgs:
        h += "template<> struct Glue<::%s> { static void load(const gp::Message &, ::%s &); static void store(const ::%s &, gp::Message *); };\n" % (
            m.cpp(), m.cpp(), m.cpp())
    h += "}\n"
    out["glue_%s.h" % ident] = h
    chunks = [msgs[i::parts] for i in range(parts)]
    for i, chunk in enumerate(chunks):
        c = '#include "glue_%s.h"\nnamespace vp {\n' % ident
        for m in chunk:
            T = "::" + m.cpp()
            c += "void Glue<%s>::load(const gp::Message &g, %s &q) {\n  (void)g; (void)q;\n" % (T, T)
            for f in m.fields:
                c += "  loadField<Plain<decltype(std::declval<const %s &>().%s())>>(g, %d, [&](const auto &v) { q.%s(v); });\n" % (
                    T, f.getter(), f.number, f.setter())
            c += "}\nvoid Glue<%s>::store(const %s &q, gp::Message *g) {\n  (void)g; (void)q;\n" % (T, T)
            for f in m.fields:
                c += "  storeField(q.%s(), g, %d);\n" % (f.getter(), f.number)
            c += "}\n"
            # positional constructors, with the first k fields
            fn = m.proto_name().replace(".", "_")
            c += "static QObject *construct_%s(const gp::Message &g, int k) {\n  (void)g;\n  switch (k) {\n" % fn
            c += "  case 0: return new %s();\n" % T
            for k in range(1, len(m.fields) + 1):
                c += "  case %d: return new %s(%s);\n" % (k, T, ", ".join(
                    "fieldValue<Plain<decltype(std::declval<const %s &>().%s())>>(g, %d)" % (T, f.getter(), f.number)
                    for f in m.fields[:k]))
            c += "  }\n  return nullptr;\n}\n"
            c += "static Registrar reg_%s([] {\n  TypeOps o = makeOps<%s>(\"%s\");\n  o.construct = construct_%s;\n" % (
                fn, T, m.proto_name(), fn)
            for f in m.fields:
                c += ("  o.fields.push_back(FieldOps{%d, \"%s\", \"%s\", \"%s\", "
                      "[](QObject *qo, const gp::Message &g) { auto &q = *static_cast<%s *>(qo); "
                      "loadField<Plain<decltype(std::declval<const %s &>().%s())>>(g, %d, [&](const auto &v) { q.%s(v); }); }, "
                      "[](const QObject *qo, gp::Message *g) { storeField(static_cast<const %s *>(qo)->%s(), g, %d); }, "
                      "[](const gp::Message &g) { return fieldVariant<Plain<decltype(std::declval<const %s &>().%s())>>(g, %d); }});\n") % (
                    f.number, f.name, f.prop(), f.signal(), T, T, f.getter(), f.number, f.setter(), T, f.getter(), f.number,
                    T, f.getter(), f.number)
            c += "  return o;\n});\n"
        c += "}\n"
        out["glue_%s_%d.cpp" % (ident, i)] = c
    return out
