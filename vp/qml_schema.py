"""Schema of the QML monitors, generated with the QML option."""
from .schema import *

SHOWN = ["int32", "sint32", "uint32", "fixed32", "sfixed32", "bool", "string", "float", "double"]


def qml():
    G = Enum("Mood", [("M_NONE", 0), ("M_GOOD", 1), ("M_BAD", -1), ("M_FAR", 100000)])
    leaf = Message("Leaf", [Field("num", 1, "int32"), Field("txt", 2, "string"), Field("flag", 3, "bool")])
    plain = Message("Plain", [Field("p_" + t, 1 + i, t) for i, t in enumerate(SCALARS)] + [Field("p_mood", 20, G)])
    names = Message("Names", [Field("id", 1, "int32"), Field("property", 2, "string"), Field("snake_case_name", 3, "uint32"), Field("CamelName", 4, "double"), Field("import", 5, "bool")])
    kind = Enum("Kind", [("K_NONE", 0), ("K_ONE", 1), ("K_MANY", 77)])
    inner = Message("Inner", [Field("n", 1, "sint32"), Field("leaf", 2, leaf)])
    outer = Message("Outer", [Field("kind", 1, kind), Field("inner", 2, inner), Field("inners", 3, inner, "rep"), Field("title", 4, "string")], [inner], [kind])
    box = Message("Box", [Field("leaf", 1, leaf), Field("leaves", 2, leaf, "rep"), Field("plain", 3, plain), Field("plains", 4, plain, "rep"), Field("label", 5, "string"),
                          Field("strs", 6, "string", "rep"), Field("ints", 7, "int32", "rep"), Field("sints", 8, "sint32", "rep"), Field("doubles", 9, "double", "rep"),
                          Field("moods", 10, G, "rep"), Field("by_name", 11, "string", "map", "string"), Field("count", 12, "int32")])
    deep = Message("Deep", [Field("box", 1, box), Field("boxes", 2, box, "rep"), Field("outer", 3, outer), Field("level", 4, "uint32")])
    return [File("vqml.proto", "vp.qml", [leaf, plain, names, outer, box, deep], [G])]
