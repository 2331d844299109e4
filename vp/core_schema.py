"""The fixed schema used by the wire / value-semantics checks: every field kind the generator supports."""
from .schema import *


def core():
    G = Enum("GEnum", [("G_ZERO", 0), ("G_ONE", 1), ("G_TWO", 2), ("G_NEG", -1), ("G_BIG", 2147483647),
                       ("G_MIN", -2147483648), ("G_HUNDREDS", 300)])
    empty = Message("Empty")
    leaf = Message("Leaf", [Field("num", 1, "int32"), Field("txt", 2, "string"), Field("raw", 3, "bytes")])
    nums = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]
    scal = Message("Scalars", [Field("f_" + t, n, t) for t, n in zip(SCALARS, nums)] + [Field("f_enum", 16, G)])
    numbers = Message("Numbers", [
        Field("n15", 15, "sint32"), Field("n16", 16, "string"), Field("n2047", 2047, "fixed32"),
        Field("n2048", 2048, "uint64"), Field("n262143", 262143, "bytes"), Field("n262144", 262144, "double"),
        Field("n33554431", 33554431, "bool"), Field("n33554432", 33554432, "int64"),
        Field("n536870911", 536870911, "sfixed64"), Field("rep_at_19", 18, "int32", "rep"),
        Field("strs_far", 70000, "string", "rep"), Field("map_far", 400000000, "int32", "map", "string"),
        Field("msg_far", 300000000, leaf), Field("enum_far", 5000, G)])
    packed = Message("Packed", [Field("r_" + t, 3 + 2 * i, t, "rep") for i, t in enumerate(NUMERIC)]
                     + [Field("r_enum", 100, G, "rep")])
    lists = Message("Lists", [Field("strs", 1, "string", "rep"), Field("raws", 2, "bytes", "rep"),
                              Field("leaves", 3, leaf, "rep"), Field("empties", 4, empty, "rep"),
                              Field("scals", 17, scal, "rep"), Field("enums", 18, G, "rep")])
    mapsk = Message("MapsByKey", [Field("m_" + k, 1 + i, "string", "map", k) for i, k in enumerate(KEYS)])
    mapsv = Message("MapsByValue", [Field("v_" + v, 1 + i, v, "map", "string") for i, v in enumerate(SCALARS)]
                    + [Field("v_enum", 20, G, "map", "string"), Field("v_leaf", 21, leaf, "map", "string")])
    mapsm = Message("MapsOfMsg", [Field("w_" + k, 1 + i, leaf, "map", k) for i, k in enumerate(KEYS)]
                    + [Field("w_empty", 30, empty, "map", "uint32"), Field("w_double", 31, "double", "map", "sint64"),
                       Field("w_enum", 32, G, "map", "fixed64"), Field("w_bool", 33, "bool", "map", "int64")])
    inner2 = Message("In2", [Field("s", 1, "string"), Field("z", 2, "sint64")])
    inner = Message("In", [Field("x", 1, "int32"), Field("i2", 2, inner2), Field("ge", 3, G),
                           Field("i2s", 4, inner2, "rep")], [inner2])
    le = Enum("LocalEnum", [("LE_A", 0), ("LE_B", 1), ("LE_C", 70000), ("LE_D", -5)])
    outer = Message("Outer", [Field("le", 1, le), Field("in_msg", 2, inner), Field("ins", 3, inner, "rep"),
                              Field("by_name", 4, inner, "map", "string"), Field("title", 5, "string")], [inner], [le])
    user = Message("EnumUser", [Field("step_child", 1, le), Field("g", 2, G)])
    # nested enums of the same name in several messages, some used by maps or by other messages only
    ka = Enum("Kind", [("KA_NONE", 0), ("KA_X", 3), ("KA_Y", 1000)])
    kb = Enum("Kind", [("KB_NONE", 0), ("KB_X", 4), ("KB_Y", -1000)])
    kc = Enum("Kind", [("KC_NONE", 0), ("KC_X", 5)])
    kinda = Message("KindA", [Field("k", 1, ka), Field("again", 2, ka), Field("ks", 3, ka, "rep")], [], [ka])
    kindb = Message("KindB", [Field("k", 1, kb), Field("km", 2, kb, "map", "int32"), Field("other", 3, ka), Field("others", 4, ka, "rep")], [], [kb])
    kindc = Message("KindC", [Field("km", 1, kc, "map", "string"), Field("num", 2, "int32")], [], [kc])
    kindu = Message("KindUser", [Field("a", 1, ka), Field("b", 2, kb), Field("c", 3, kc), Field("cs", 4, kc, "rep"), Field("am", 5, ka, "map", "sint64")])
    # enums and messages nested two levels deep, used inside and outside of where they are declared
    da = Enum("Kind", [("DA_NONE", 0), ("DA_X", -7), ("DA_Y", 2147483647)])
    db = Enum("Grade", [("DB_NONE", 0), ("DB_LOW", -2147483648), ("DB_HIGH", 129)])
    deepb = Message("Bottom", [Field("g", 1, db), Field("gs", 2, db, "rep"), Field("gm", 3, db, "map", "string"), Field("t", 2000, "string"), Field("top", 5, G)], [], [db])
    deepa = Message("Middle", [Field("k", 1, da), Field("bottom", 2, deepb), Field("ks", 17, da, "rep"), Field("bs", 4, deepb, "rep"),
                               Field("bm", 5, deepb, "map", "sfixed32"), Field("km", 6, da, "map", "bool"), Field("far", 7, db)], [deepb], [da])
    deep = Message("Deep", [Field("m", 1, deepa), Field("b", 2, deepb), Field("k", 3, da), Field("gs", 4, db, "rep"), Field("ms", 5, deepa, "rep"),
                            Field("bm", 6, deepb, "map", "int64"), Field("gm", 7, db, "map", "uint32")], [deepa])
    deepu = Message("DeepUser", [Field("b", 1, deepb), Field("bs", 2, deepb, "rep"), Field("g", 3, db), Field("ks", 4, da, "rep"), Field("m", 5, deepa, "map", "string"), Field("d", 6, deep)])
    tree = Message("Tree")
    tree.fields = [Field("label", 1, "string"), Field("kids", 2, tree, "rep"), Field("by", 3, tree, "map", "int32"),
                   Field("weight", 4, "double")]
    mid = Message("Mid", [Field("leaf", 1, leaf), Field("scal", 2, scal), Field("none", 3, empty),
                          Field("leaves", 4, leaf, "rep"), Field("names", 5, "string", "rep"),
                          Field("by", 6, leaf, "map", "string"), Field("count", 7, "uint32")])
    chain = []
    prev = Message("C0", [Field("v", 1, "int32"), Field("leaf", 2, leaf)])
    chain.append(prev)
    for i in range(1, 6):
        prev = Message("C%d" % i, [Field("v", 1, "int32"), Field("next", 2, prev), Field("many", 3, prev, "rep")])
        chain.append(prev)
    names = Message("Names", [Field("id", 1, "int32"), Field("property", 2, "string"), Field("import", 3, "bytes"),
                              Field("snake_case_name", 4, "uint32"), Field("CamelName", 5, "sint64"),
                              Field("with_1_digit", 6, "float"), Field("__lead", 7, "bool")])
    every = Message("Everything", [Field("i", 1, "int32"), Field("s", 2, "string"), Field("b", 3, "bytes"),
                                   Field("e", 4, G), Field("ri", 5, "sint32", "rep"), Field("rs", 6, "string", "rep"),
                                   Field("re", 7, G, "rep"), Field("mid", 8, mid), Field("mids", 9, mid, "rep"),
                                   Field("ms", 10, "string", "map", "string"), Field("mm", 11, mid, "map", "int32"),
                                   Field("t", 12, tree), Field("bo", 13, "bool"), Field("d", 14, "double"),
                                   Field("chain", 15, chain[5]), Field("outer", 16, outer), Field("pk", 17, packed)])
    pk = "vp.core"
    return [File("vbase.proto", pk, [empty, leaf, scal, numbers], [G]),
            File("vlists.proto", pk, [packed, lists, names], imports=["vbase.proto"]),
            File("vmaps.proto", pk, [mapsk, mapsv, mapsm], imports=["vbase.proto"]),
            File("vnest.proto", pk, [outer, user, kinda, kindb, kindc, kindu, deep, deepu, tree, mid], imports=["vbase.proto"]),
            File("vchain.proto", pk, chain + [every], imports=["vbase.proto", "vnest.proto", "vlists.proto"])]
