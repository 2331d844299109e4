"""Random schemas within what the generator supports (its limits are listed in DESIGN.md)."""
import random
from .schema import *

SYL = ["al", "be", "ga", "de", "ep", "ze", "ta", "io", "ka", "la", "mu", "nu", "xi", "om", "pi", "ro"]
COMMENTS = ["plain remark", "remark with \"quotes\" and 'more'", "a backslash \\ in it", "several\nlines of\nremark", "with /* opening", "percent %1 and dollar sign", "<b>tags</b> & more", "ends with //", "@brief \\brief note", "/ tripled\n/ slashes", "glob a/*/b and */", "costs 5$ and $name$"]


class Names:
    def __init__(self, r):
        self.r, self.used = r, set()

    def word(self):
        return "".join(self.r.choice(SYL) for _ in range(self.r.randint(1, 3)))

    def message(self):
        while True:
            n = self.word().capitalize() + (self.word().capitalize() if self.r.random() < .4 else "") + (str(self.r.randint(0, 99)) if self.r.random() < .3 else "")
            if n.lower() not in self.used:
                self.used.add(n.lower())
                return n

    def field(self, used):
        while True:
            style = self.r.randint(0, 7)
            a, b = self.word(), self.word()
            n = [a, a + "_" + b, a + b.capitalize(), a.capitalize() + b.capitalize(), a + "_" + b + "_" + self.word(), a + "_%d" % self.r.randint(0, 99), a + str(self.r.randint(0, 9)) + b, a + "_" + b.upper()][style]
            k = camel(n).lower()
            # names whose accessors would meet those of QObject or of another field
            if k in used or k in ("parent", "event", "deleted", "data", "at", "be"):
                continue
            used.add(k)
            used.add(k + "data")
            return n


def random_schema(seed, options=()):
    r = random.Random(seed)
    names = Names(r)
    npkg = r.randint(1, 2)
    packages = []
    for _ in range(npkg):
        packages.append(".".join(["pk%d" % i + names.word() for i in range(r.randint(1, 3))]))
    files, messages, enums = [], [], []
    for fi in range(r.randint(1, 3)):
        pkg = r.choice(packages)
        fmsgs, fenums = [], []
        for _ in range(r.randint(0, 1)):
            fenums.append(random_enum(r, names))
        avail_m, avail_e = list(messages), list(enums) + fenums
        for _ in range(r.randint(1, 3)):
            fmsgs.append(random_message(r, names, avail_m, avail_e, 0, options))
            avail_m.append(fmsgs[-1])
        if r.random() < .4 and len(fmsgs) > 1:      # messages that hold each other, by lists and maps
            a, b = sorted(r.sample(range(len(fmsgs)), 2))
            recursive_field(r, names, fmsgs[a], fmsgs[b])
        r.shuffle(fmsgs)                            # a message may be used before it is declared
        f = File("f%d%s.proto" % (fi, names.word()), pkg, fmsgs, fenums)
        f.options = [o for o in ("java_package = \"org.%s\"" % names.word(), "optimize_for = SPEED", "deprecated = true", "objc_class_prefix = \"X\"", "csharp_namespace = \"A.B\"") if r.random() < .15]
        used = {x.typ.file for m in f.all_messages() for x in m.fields if not isinstance(x.typ, str)} - {f}
        f.imports = sorted(x.name for x in used)
        if r.random() < .35 and fmsgs:
            n = names.message()
            f.services = "service %s {\n" % n
            for k in range(r.randint(1, 3)):
                f.services += "  rpc %s (%s) returns (%s%s) {}\n" % (names.message(), r.choice(fmsgs).name, "stream " if r.random() < .4 else "", r.choice(fmsgs).name)
            f.services += "}\n"
        files.append(f)
        messages += fmsgs
        enums += fenums
        inner = [n for m in fmsgs for n in m.messages]
        inner += [n for m in inner for n in m.messages]
        messages += [n for n in inner if r.random() < .5]
        enums += [e for m in fmsgs + inner for e in m.enums if r.random() < .5]
    return files


def nested_name(r, names, pool):
    """Nested types of different parents often have the same name."""
    return pool.pop() if pool and r.random() < .6 else names.message()


def recursive_field(r, names, m, typ):
    used_n, used = {x.number for x in m.fields} | m.reserved, set()
    for x in m.fields:
        used |= {camel(x.name).lower(), camel(x.name).lower() + "data"}
    if r.random() < .7:
        m.fields.append(Field(names.field(used), number(r, used_n), typ, "rep"))
    else:
        m.fields.append(Field(names.field(used), number(r, used_n), typ, "map", r.choice(KEYS)))
    r.shuffle(m.fields)


def random_enum(r, names, n=None):
    n = n or names.message()
    vals = [(n.upper() + "_ZERO", 0)]
    for i in range(r.randint(1, 5)):
        style = r.random()
        key = "%s_V%d" % (n.upper(), i) if style < .7 else "%s_v%d" % (n.lower(), i) if style < .85 else "%sV%d" % (n, i)
        vals.append((key, r.choice([1, 2, 3, 5, 127, 128, 300, 65536, 2147483647, -1, -2147483648]) if r.random() < .7 else r.randint(-1000, 100000)))
    seen, out, alias = set(), [], r.random() < .15
    if alias:
        vals.append((n.upper() + "_AGAIN", r.choice(vals)[1]))
    for k, v in vals:
        if v not in seen or alias:
            seen.add(v)
            out.append((k, v))
    e = Enum(n, out)
    e.deprecated = {k for k, _ in out if r.random() < .15}
    return e


def number(r, used):
    while True:
        n = r.choice([r.randint(1, 15), r.randint(16, 2047), r.randint(2048, 18999), r.randint(20000, 262143), r.randint(262144, 536870911)] + [r.randint(1, 30)] * 4)
        if n not in used:
            used.add(n)
            return n


def random_message(r, names, avail_m, avail_e, depth, options):
    nested, enums = [], []
    own = names.message()
    if depth < 2:
        pool, epool = (["Item", "Part"], ["Bit", "Atom"])[depth], ["Kind"]   # a class cannot hold one of its own name
        for _ in range(r.choice([0, 0, 1, 2] if depth == 0 else [0, 0, 1])):
            nested.append(random_message(r, names, avail_m, avail_e, depth + 1, options))
            nested[-1].name = nested_name(r, names, pool)
        for _ in range(r.choice([0, 0, 1])):
            enums.append(random_enum(r, names, nested_name(r, names, epool)))
    m = Message(own, [], nested, enums, comment=r.choice(COMMENTS) if r.random() < .4 else None)
    used_n, used = set(), set()
    ms, es = avail_m + nested + [x for n in nested for x in n.messages], avail_e + enums + [e for n in nested for e in n.enums + [y for x in n.messages for y in x.enums]]
    for _ in range(r.choice([0, 1, 3, 5, 7])):
        kind = r.random()
        typ, label, key = r.choice(SCALARS), "one", None
        if kind < .2 and ms:
            typ = r.choice(ms)
        elif kind < .35 and es:
            typ = r.choice(es)
        k = r.random()
        if k < .3 and typ != "bool":        # lists of bool are not supported
            label = "rep"
        elif k < .45:
            label, key = "map", r.choice(KEYS)
        f = Field(names.field(used), number(r, used_n), typ, label, key, comment=r.choice(COMMENTS) if r.random() < .2 else None)
        if r.random() < .12:
            f.opts.append("deprecated = %s" % r.choice(["true", "true", "false"]))
        if label == "rep" and (isinstance(typ, Enum) or typ in NUMERIC) and r.random() < .4:
            f.opts.append("packed = %s" % r.choice(["true", "false", "false"]))
        if r.random() < .08:
            f.opts.append("json_name = \"%s\"" % names.field(used))
        m.fields.append(f)
    if r.random() < .15:
        recursive_field(r, names, m, m)
    if r.random() < .1:
        m.extra.append("option deprecated = true;")
    if r.random() < .15:
        lo = number(r, used_n | {x.number for x in m.fields})
        m.reserved.add(lo)
        m.extra.append("reserved %d;" % lo)
    return m


OPTIONS = [[], ["QML"], ["MULTI"], ["FIELDENUM"], ["COMMENTS"], ["FOLDER"], ["QML", "FIELDENUM", "COMMENTS"], ["MULTI", "QML"], ["MULTI", "FIELDENUM", "COMMENTS"], ["QML", "FOLDER"],
           ["EXTRA_NAMESPACE"], ["EXTRA_NAMESPACE", "QML", "FIELDENUM"], ["EXTRA_NAMESPACE", "FOLDER", "COMMENTS"]]
