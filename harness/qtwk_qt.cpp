// P12: fields of Qt types. What is expected on the wire is written with google::protobuf from the published .proto files.
#include <cmath>
#include <cstring>
#include <QBuffer>
#include <QImage>
#include <QProtobufSerializer>
#include "qtwk.h"
#include "vptypes.qpb.h"

namespace vp {
namespace {
using gp::Message;

struct G {   // writes and reads fields of a google message by name
    Message *m;
    const gp::FieldDescriptor *f(const char *n) const { return m->GetDescriptor()->FindFieldByName(n); }
    void set(const char *n, int v) const { if (f(n)->cpp_type() == gp::FieldDescriptor::CPPTYPE_UINT32) m->GetReflection()->SetUInt32(m, f(n), uint32_t(v)); else m->GetReflection()->SetInt32(m, f(n), v); }
    void set(const char *n, double v) const { m->GetReflection()->SetDouble(m, f(n), v); }
    void set(const char *n, float v) const { m->GetReflection()->SetFloat(m, f(n), v); }
    void set(const char *n, const std::string &v) const { m->GetReflection()->SetString(m, f(n), v); }
    G sub(const char *n) const { return {m->GetReflection()->MutableMessage(m, f(n))}; }
    G add(const char *n) const { return {m->GetReflection()->AddMessage(m, f(n))}; }
};
struct C {
    const Message *m;
    const gp::FieldDescriptor *f(const char *n) const { return m->GetDescriptor()->FindFieldByName(n); }
    int i(const char *n) const { return f(n)->cpp_type() == gp::FieldDescriptor::CPPTYPE_UINT32 ? int(m->GetReflection()->GetUInt32(*m, f(n))) : m->GetReflection()->GetInt32(*m, f(n)); }
    double d(const char *n) const { return m->GetReflection()->GetDouble(*m, f(n)); }
    float s(const char *n) const { return m->GetReflection()->GetFloat(*m, f(n)); }
    std::string t(const char *n) const { return m->GetReflection()->GetString(*m, f(n)); }
    C sub(const char *n) const { return {&m->GetReflection()->GetMessage(*m, f(n))}; }
    int size(const char *n) const { return m->GetReflection()->FieldSize(*m, f(n)); }
    C at(const char *n, int k) const { return {&m->GetReflection()->GetRepeatedMessage(*m, f(n), k)}; }
};

// values whose comparison is exact: Qt compares its floating point types with a tolerance
double dbl(Rng &r) {
    switch (r.below(5)) {
    case 0: return 0.0;
    case 1: return double(r.range(-1000000, 1000000)) + 0.5;
    case 2: return (r.chance(50) ? -1 : 1) * std::ldexp(1.0 + double(r.below(1u << 30)) / (1u << 30), r.range(2, 900));
    default: return double(int64_t(r.next()) >> r.range(0, 50)) / 1024.0 + 3.0;
    }
}
float flt(Rng &r) {
    switch (r.below(4)) {
    case 0: return 0.0f;
    case 1: return float(r.range(-100000, 100000)) + 0.5f;
    case 2: return (r.chance(50) ? -1 : 1) * std::ldexp(1.0f + float(r.below(1u << 20)) / (1u << 20), r.range(2, 60));
    default: return float(int(r.next()) >> r.range(0, 25)) / 8.0f + 3.0f;
    }
}
int num(Rng &r) {
    static const int b[] = {0, 1, -1, 63, 64, -64, -65, 127, 128, 8191, 8192, 1 << 20, 2147483647, -2147483647 - 1, 2147483646, 1073741824, -1073741825};
    return r.chance(40) ? b[r.below(sizeof b / sizeof *b)] : int(r.next()) >> r.range(0, 31);
}
int small(Rng &r) { return num(r) / 4; }
bool bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
bool bits(float a, float b) { return memcmp(&a, &b, sizeof a) == 0; }
std::string utf8(const QString &s) { QByteArray b = s.toUtf8(); return std::string(b.constData(), size_t(b.size())); }

// ---- one set of functions per type: random value, expected wire form, value of a wire form, equality
void gen(Rng &r, ::QUrl &v) {
    static const char *schemes[] = {"http", "https", "ftp", "file", "mailto", "custom+x.1"};
    for (int tries = 0; tries < 20; ++tries) {
        FillProfile p;
        QUrl u;
        u.setScheme(schemes[r.below(5)]);
        if (r.chance(80)) u.setHost(r.chance(80) ? QStringLiteral("host%1.example.org").arg(r.below(1000)) : r.chance(50) ? QStringLiteral("::1") : QStringLiteral("192.168.0.%1").arg(r.below(256)));
        if (r.chance(30)) u.setPort(r.range(0, 65535));
        if (r.chance(30)) u.setUserName(QString::fromStdString(randomUtf8(r, p)).left(20));
        if (r.chance(20)) u.setPassword(QString::fromStdString(randomUtf8(r, p)).left(20));
        if (r.chance(70)) u.setPath("/" + QString::fromStdString(randomUtf8(r, p)).left(200), QUrl::DecodedMode);
        if (r.chance(40)) u.setQuery(QString::fromStdString(randomUtf8(r, p)).left(100), QUrl::DecodedMode);
        if (r.chance(40)) u.setFragment(QString::fromStdString(randomUtf8(r, p)).left(100), QUrl::DecodedMode);
        // only what Qt itself reads back from its own text
        if (u.isValid() && ::QUrl(u.url()) == u && QString::fromUtf8(u.url().toUtf8()) == u.url()) {
            v = u;
            return;
        }
    }
    v = ::QUrl("http://example.org/a?b=c#d");
}
void put(G g, const ::QUrl &v) { g.set("url", utf8(v.toString())); }
bool take(C g, ::QUrl &v) { v = ::QUrl(QString::fromUtf8(g.t("url").c_str())); return true; }
bool same(const ::QUrl &a, const ::QUrl &b) { return a == b && a.toEncoded() == b.toEncoded(); }

void gen(Rng &r, ::QChar &v) { v = r.chance(30) ? ::QChar(ushort(r.below(128))) : ::QChar(ushort(r.below(65536))); }
void put(G g, const ::QChar &v) { std::string s; s += char(v.unicode() >> 8); s += char(v.unicode() & 255); g.set("character", s); }
bool take(C g, ::QChar &v) {
    std::string s = g.t("character");
    if (s.size() != 2) return false;
    v = ::QChar(ushort((uint8_t(s[0]) << 8) | uint8_t(s[1])));
    return true;
}
bool same(::QChar a, ::QChar b) { return a == b; }

void gen(Rng &r, ::QUuid &v) { v = r.chance(10) ? ::QUuid() : ::QUuid(uint(r.next()), ushort(r.next()), ushort(r.next()), uchar(r.next()), uchar(r.next()), uchar(r.next()), uchar(r.next()), uchar(r.next()), uchar(r.next()), uchar(r.next()), uchar(r.next())); }
void put(G g, const ::QUuid &v) {
    char s[64];
    snprintf(s, sizeof s, "{%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x}", v.data1, v.data2, v.data3, v.data4[0], v.data4[1], v.data4[2], v.data4[3], v.data4[4], v.data4[5], v.data4[6], v.data4[7]);
    g.set("uuid", std::string(s));
}
bool take(C g, ::QUuid &v) { v = ::QUuid(QString::fromUtf8(g.t("uuid").c_str())); return true; }
bool same(const ::QUuid &a, const ::QUuid &b) { return a == b; }

void gen(Rng &r, ::QTime &v) {
    static const int b[] = {0, 1, 999, 1000, 59999, 60000, 3599999, 86399999, 43200000};
    v = ::QTime::fromMSecsSinceStartOfDay(r.chance(30) ? b[r.below(9)] : int(r.below(86400000)));
}
void put(G g, const ::QTime &v) { g.set("msec", ((v.hour() * 60 + v.minute()) * 60 + v.second()) * 1000 + v.msec()); }
bool take(C g, ::QTime &v) {
    int ms = g.i("msec");
    if (ms < 0 || ms >= 86400000) return false;
    v = ::QTime(ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000);
    return true;
}
bool same(const ::QTime &a, const ::QTime &b) { return a == b; }

void gen(Rng &r, ::QDate &v) {
    do {
        int y = r.chance(20) ? r.range(-4700, -1) : r.chance(20) ? r.range(1, 99) : r.chance(10) ? r.range(9999, 1000000) : r.range(1900, 2100);
        v = r.chance(20) ? ::QDate(y, 2, 29) : r.chance(20) ? ::QDate(y, 12, 31) : ::QDate(y, r.range(1, 12), r.range(1, 28));
    } while (!v.isValid());
}
void put(G g, const ::QDate &v) { int y = 0, m = 0, d = 0; if (v.isValid()) v.getDate(&y, &m, &d); g.set("year", y); g.set("month", m); g.set("day", d); }
bool take(C g, ::QDate &v) { v = ::QDate(g.i("year"), g.i("month"), g.i("day")); return v.isValid() || !(g.i("year") || g.i("month") || g.i("day")); }
bool same(const ::QDate &a, const ::QDate &b) { return a == b || (!a.isValid() && !b.isValid()); }

// local time, the only time specification the schema carries; TZ is UTC in these runs, so that no time falls into a gap
void gen(Rng &r, ::QDateTime &v) { ::QDate d; ::QTime t; do { gen(r, d); } while (d.year() < 100 || d.year() > 9999); gen(r, t); v = ::QDateTime(d, t); }
void put(G g, const ::QDateTime &v) { put(g.sub("date"), v.date()); put(g.sub("time"), v.time()); }
bool take(C g, ::QDateTime &v) { ::QDate d; ::QTime t; if (!take(g.sub("date"), d) || !take(g.sub("time"), t)) return false; v = ::QDateTime(d, t); return true; }
bool same(const ::QDateTime &a, const ::QDateTime &b) { return same(a.date(), b.date()) && a.time() == b.time() && a == b; }

void gen(Rng &r, ::QSize &v) { v = ::QSize(num(r), num(r)); }
void put(G g, const ::QSize &v) { g.set("width", v.width()); g.set("height", v.height()); }
bool take(C g, ::QSize &v) { v = ::QSize(g.i("width"), g.i("height")); return true; }
bool same(const ::QSize &a, const ::QSize &b) { return a.width() == b.width() && a.height() == b.height(); }

void gen(Rng &r, ::QSizeF &v) { v = ::QSizeF(dbl(r), dbl(r)); }
void put(G g, const ::QSizeF &v) { g.set("width", v.width()); g.set("height", v.height()); }
bool take(C g, ::QSizeF &v) { v = ::QSizeF(g.d("width"), g.d("height")); return true; }
bool same(const ::QSizeF &a, const ::QSizeF &b) { return bits(a.width(), b.width()) && bits(a.height(), b.height()); }

void gen(Rng &r, ::QPoint &v) { v = ::QPoint(num(r), num(r)); }
void put(G g, const ::QPoint &v) { g.set("x", v.x()); g.set("y", v.y()); }
bool take(C g, ::QPoint &v) { v = ::QPoint(g.i("x"), g.i("y")); return true; }
bool same(const ::QPoint &a, const ::QPoint &b) { return a.x() == b.x() && a.y() == b.y(); }

void gen(Rng &r, ::QPointF &v) { v = ::QPointF(dbl(r), dbl(r)); }
void put(G g, const ::QPointF &v) { g.set("x", v.x()); g.set("y", v.y()); }
bool take(C g, ::QPointF &v) { v = ::QPointF(g.d("x"), g.d("y")); return true; }
bool same(const ::QPointF &a, const ::QPointF &b) { return bits(a.x(), b.x()) && bits(a.y(), b.y()); }

void gen(Rng &r, ::QRect &v) { v = ::QRect(small(r), small(r), small(r), small(r)); }
void put(G g, const ::QRect &v) { G p = g.sub("position"), s = g.sub("size"); p.set("x", v.left()); p.set("y", v.top()); s.set("width", v.width()); s.set("height", v.height()); }
bool take(C g, ::QRect &v) { v = ::QRect(g.sub("position").i("x"), g.sub("position").i("y"), g.sub("size").i("width"), g.sub("size").i("height")); return true; }
bool same(const ::QRect &a, const ::QRect &b) { return a.left() == b.left() && a.top() == b.top() && a.right() == b.right() && a.bottom() == b.bottom(); }

void gen(Rng &r, ::QRectF &v) { v = ::QRectF(dbl(r), dbl(r), dbl(r), dbl(r)); }
void put(G g, const ::QRectF &v) { G p = g.sub("position"), s = g.sub("size"); p.set("x", v.x()); p.set("y", v.y()); s.set("width", v.width()); s.set("height", v.height()); }
bool take(C g, ::QRectF &v) { v = ::QRectF(g.sub("position").d("x"), g.sub("position").d("y"), g.sub("size").d("width"), g.sub("size").d("height")); return true; }
bool same(const ::QRectF &a, const ::QRectF &b) { return bits(a.x(), b.x()) && bits(a.y(), b.y()) && bits(a.width(), b.width()) && bits(a.height(), b.height()); }

void gen(Rng &r, ::QPolygon &v) { v.clear(); for (int n = r.chance(10) ? r.range(100, 400) : r.range(0, 6); n > 0; --n) v.append(::QPoint(num(r), num(r))); }
void put(G g, const ::QPolygon &v) { for (int i = 0; i < v.size(); ++i) put(g.add("points"), v.at(i)); }
bool take(C g, ::QPolygon &v) { v.clear(); for (int i = 0; i < g.size("points"); ++i) { ::QPoint p; take(g.at("points", i), p); v.append(p); } return true; }
bool same(const ::QPolygon &a, const ::QPolygon &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!same(a.at(i), b.at(i))) return false; return true; }

void gen(Rng &r, ::QPolygonF &v) { v.clear(); for (int n = r.chance(10) ? r.range(100, 400) : r.range(0, 6); n > 0; --n) v.append(::QPointF(dbl(r), dbl(r))); }
void put(G g, const ::QPolygonF &v) { for (int i = 0; i < v.size(); ++i) put(g.add("points"), v.at(i)); }
bool take(C g, ::QPolygonF &v) { v.clear(); for (int i = 0; i < g.size("points"); ++i) { ::QPointF p; take(g.at("points", i), p); v.append(p); } return true; }
bool same(const ::QPolygonF &a, const ::QPolygonF &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!same(a.at(i), b.at(i))) return false; return true; }

void gen(Rng &r, ::QColor &v) { v = ::QColor(r.range(0, 255), r.range(0, 255), r.range(0, 255), r.chance(30) ? (r.chance(50) ? 255 : 0) : r.range(0, 255)); }
void put(G g, const ::QColor &v) { g.set("rgba", int((uint32_t(v.alpha()) << 24) | (uint32_t(v.red()) << 16) | (uint32_t(v.green()) << 8) | uint32_t(v.blue()))); }
bool take(C g, ::QColor &v) { uint32_t c = uint32_t(g.i("rgba")); v = ::QColor(int(c >> 16 & 255), int(c >> 8 & 255), int(c & 255), int(c >> 24)); return true; }
bool same(const ::QColor &a, const ::QColor &b) { return a.red() == b.red() && a.green() == b.green() && a.blue() == b.blue() && a.alpha() == b.alpha(); }

const char *mname(int i, int j) { static char n[8][4]; static int k = 0; k = (k + 1) % 8; snprintf(n[k], 4, "m%d%d", i + 1, j + 1); return n[k]; }
void gen(Rng &r, ::QMatrix4x4 &v) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v(i, j) = flt(r); }
void put(G g, const ::QMatrix4x4 &v) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g.set(mname(i, j), v(i, j)); }
bool take(C g, ::QMatrix4x4 &v) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v(i, j) = g.s(mname(i, j)); return true; }
bool same(const ::QMatrix4x4 &a, const ::QMatrix4x4 &b) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!bits(a(i, j), b(i, j))) return false; return true; }

void gen(Rng &r, ::QVector2D &v) { v = ::QVector2D(flt(r), flt(r)); }
void put(G g, const ::QVector2D &v) { g.set("xpos", v.x()); g.set("ypos", v.y()); }
bool take(C g, ::QVector2D &v) { v = ::QVector2D(g.s("xpos"), g.s("ypos")); return true; }
bool same(const ::QVector2D &a, const ::QVector2D &b) { return bits(a.x(), b.x()) && bits(a.y(), b.y()); }

void gen(Rng &r, ::QVector3D &v) { v = ::QVector3D(flt(r), flt(r), flt(r)); }
void put(G g, const ::QVector3D &v) { g.set("xpos", v.x()); g.set("ypos", v.y()); g.set("zpos", v.z()); }
bool take(C g, ::QVector3D &v) { v = ::QVector3D(g.s("xpos"), g.s("ypos"), g.s("zpos")); return true; }
bool same(const ::QVector3D &a, const ::QVector3D &b) { return bits(a.x(), b.x()) && bits(a.y(), b.y()) && bits(a.z(), b.z()); }

void gen(Rng &r, ::QVector4D &v) { v = ::QVector4D(flt(r), flt(r), flt(r), flt(r)); }
void put(G g, const ::QVector4D &v) { g.set("xpos", v.x()); g.set("ypos", v.y()); g.set("zpos", v.z()); g.set("wpos", v.w()); }
bool take(C g, ::QVector4D &v) { v = ::QVector4D(g.s("xpos"), g.s("ypos"), g.s("zpos"), g.s("wpos")); return true; }
bool same(const ::QVector4D &a, const ::QVector4D &b) { return bits(a.x(), b.x()) && bits(a.y(), b.y()) && bits(a.z(), b.z()) && bits(a.w(), b.w()); }

void gen(Rng &r, ::QTransform &v) { v = ::QTransform(dbl(r), dbl(r), dbl(r), dbl(r), dbl(r), dbl(r), dbl(r), dbl(r), dbl(r)); }
void put(G g, const ::QTransform &v) {
    const double e[3][3] = {{v.m11(), v.m12(), v.m13()}, {v.m21(), v.m22(), v.m23()}, {v.m31(), v.m32(), v.m33()}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g.set(mname(i, j), e[i][j]);
}
bool take(C g, ::QTransform &v) { v = ::QTransform(g.d("m11"), g.d("m12"), g.d("m13"), g.d("m21"), g.d("m22"), g.d("m23"), g.d("m31"), g.d("m32"), g.d("m33")); return true; }
bool same(const ::QTransform &a, const ::QTransform &b) {
    return bits(a.m11(), b.m11()) && bits(a.m12(), b.m12()) && bits(a.m13(), b.m13()) && bits(a.m21(), b.m21()) && bits(a.m22(), b.m22()) && bits(a.m23(), b.m23())
        && bits(a.m31(), b.m31()) && bits(a.m32(), b.m32()) && bits(a.m33(), b.m33());
}

void gen(Rng &r, ::QQuaternion &v) { v = ::QQuaternion(flt(r), flt(r), flt(r), flt(r)); }
void put(G g, const ::QQuaternion &v) { g.set("scalar", v.scalar()); put(g.sub("vector"), ::QVector3D(v.x(), v.y(), v.z())); }
bool take(C g, ::QQuaternion &v) { v = ::QQuaternion(g.s("scalar"), g.sub("vector").s("xpos"), g.sub("vector").s("ypos"), g.sub("vector").s("zpos")); return true; }
bool same(const ::QQuaternion &a, const ::QQuaternion &b) { return bits(a.scalar(), b.scalar()) && bits(a.x(), b.x()) && bits(a.y(), b.y()) && bits(a.z(), b.z()); }

void gen(Rng &r, ::QImage &v) {
    v = ::QImage(r.range(1, 24), r.range(1, 24), r.chance(70) ? QImage::Format_ARGB32 : r.chance(50) ? QImage::Format_RGB32 : QImage::Format_RGB888);
    for (int y = 0; y < v.height(); ++y) for (int x = 0; x < v.width(); ++x) v.setPixel(x, y, QRgb(r.next()));
}
void put(G g, const ::QImage &v) {
    if (v.isNull()) { g.set("format", std::string("PNG")); return; }
    QByteArray data;
    QBuffer b(&data);
    b.open(QIODevice::WriteOnly);
    v.save(&b, "PNG");
    g.set("data", std::string(data.constData(), size_t(data.size())));
    g.set("format", std::string("PNG"));
}
bool same(const ::QImage &a, const ::QImage &b) {
    if (a.isNull() || b.isNull()) return a.isNull() == b.isNull();
    return a.size() == b.size() && a.convertToFormat(QImage::Format_ARGB32) == b.convertToFormat(QImage::Format_ARGB32);
}
bool take(C g, ::QImage &v) { std::string d = g.t("data"); v = ::QImage::fromData(QByteArray(d.data(), int(d.size())), g.t("format").c_str()); return true; }

// what reading the expected wire form must give, a value of a default constructed field included
template<class T> bool travels(const T &) { return true; }
bool travels(const ::QTime &v) { return v.isValid(); }
bool travels(const ::QDateTime &v) { return v.isValid(); }
bool travels(const ::QColor &v) { return v.isValid(); }

// the wire form of a picture is whatever decodes to the same pixels
bool sameWire(const char *field, const Message &want, const Message &got) {
    if (!strcmp(field, "url")) {   // and that of a URL whatever text means that URL
        ::QUrl a, b;
        take(C{&want}, a);
        take(C{&got}, b);
        return same(a, b);
    }
    if (strcmp(field, "image")) return canon(want) == canon(got);
    ::QImage a, b;
    take(C{&want}, a);
    take(C{&got}, b);
    return same(a, b) && C{&want}.t("format") == C{&got}.t("format");
}

struct Case {
    Rng &r;
    std::string id;
    bool bad = false;
    void fail(const std::string &key, const std::string &what) { bad = true; result.violation("qt types: " + key, what, id); }
};

#define CORE_FIELDS(X) X(url, Url, QUrl) X(letter, Letter, QChar) X(uuid, Uuid, QUuid) X(time, Time, QTime) X(date, Date, QDate) X(dateTime, DateTime, QDateTime) \
    X(size, Size, QSize) X(sizeF, SizeF, QSizeF) X(point, Point, QPoint) X(pointF, PointF, QPointF) X(rect, Rect, QRect) X(rectF, RectF, QRectF) \
    X(polygon, Polygon, QPolygon) X(polygonF, PolygonF, QPolygonF)
#define GUI_FIELDS(X) X(color, Color, QColor) X(matrix, Matrix, QMatrix4x4) X(vector2, Vector2, QVector2D) X(vector3, Vector3, QVector3D) X(vector4, Vector4, QVector4D) \
    X(transform, Transform, QTransform) X(quaternion, Quaternion, QQuaternion) X(image, Image, QImage)

// random values through the setters: the field reads back, notifies, and leaves the others alone
template<class M> struct Ops;
#define SETF(name, Cap, T) if (c.r.chance(percent)) { \
        ::T v, old = m.name(); gen(c.r, v); \
        int n = 0; \
        auto k = QObject::connect(&m, &std::remove_reference<decltype(m)>::type::name##Changed, [&]() { ++n; if (!same(m.name(), v)) c.fail(#T " new value not readable in the change signal", #name); }); \
        m.set##Cap(v); \
        QObject::disconnect(k); \
        if (!same(m.name(), v)) c.fail(#T " setter", #name); \
        if (n != (v == old ? 0 : 1)) c.fail(#T " change signals", std::to_string(n) + " signals of " #name); \
        result.see("fields", #T); result.count("values_set"); }
#define WIREF(name, Cap, T) { \
        const gp::FieldDescriptor *fd = g.f(#name); \
        std::unique_ptr<Message> want(g.m->GetReflection()->GetMessage(*g.m, fd).New()); \
        put(G{want.get()}, m.name()); \
        if (!travels(m.name())) result.count("values_without_wire_form"); \
        else if (!sameWire(#name, *want, g.m->GetReflection()->GetMessage(*g.m, fd))) \
            c.fail(#T " on the wire", "expected " + canon(*want) + " got " + canon(g.m->GetReflection()->GetMessage(*g.m, fd))); \
        else result.count("wire_values_compared"); }
#define SAMEF(name, Cap, T) if (travels(a.name())) { if (!same(a.name(), b.name())) c.fail(#T " " + what, #name); else result.count("values_compared"); }
#define FILLF(name, Cap, T) if (c.r.chance(percent)) { ::T v; gen(c.r, v); put(g.sub(#name), v); expect.set##Cap(v); }

void setAll(Case &c, vptypes::CoreTypes &m, int percent) { CORE_FIELDS(SETF) m.setAfter(num(c.r)); }
void setAll(Case &c, vptypes::GuiTypes &m, int percent) { GUI_FIELDS(SETF) m.setAfter(QString::number(c.r.next())); }
void wire(Case &c, const vptypes::CoreTypes &m, G g) { CORE_FIELDS(WIREF) if (C{g.m}.i("after") != m.after()) c.fail("neighbour on the wire", "after"); }
void wire(Case &c, const vptypes::GuiTypes &m, G g) { GUI_FIELDS(WIREF) if (C{g.m}.t("after") != utf8(m.after())) c.fail("neighbour on the wire", "after"); }
void compare(Case &c, const vptypes::CoreTypes &a, const vptypes::CoreTypes &b, const std::string &what) { CORE_FIELDS(SAMEF) if (a.after() != b.after()) c.fail("neighbour " + what, "after"); }
void compare(Case &c, const vptypes::GuiTypes &a, const vptypes::GuiTypes &b, const std::string &what) { GUI_FIELDS(SAMEF) if (a.after() != b.after()) c.fail("neighbour " + what, "after"); }
void fillBoth(Case &c, vptypes::CoreTypes &expect, G g, int percent) { CORE_FIELDS(FILLF) int a = num(c.r); expect.setAfter(a); g.set("after", a); }
void fillBoth(Case &c, vptypes::GuiTypes &expect, G g, int percent) { GUI_FIELDS(FILLF) QString a = QString::number(c.r.next()); expect.setAfter(a); g.set("after", utf8(a)); }

template<class M> void one(Case &c, const Oracle &o, QtProtobuf::QProtobufSerializer &s, const char *type) {
    int percent = c.r.chance(30) ? 12 : c.r.chance(30) ? 100 : 60;
    if (c.r.chance(50)) {
        // out: what another implementation reads, and what we read again
        M m;
        setAll(c, m, percent);
        if (c.r.chance(20)) setAll(c, m, 30);
        QByteArray b = m.serialize(&s);
        auto g = o.make(type);
        if (!g->ParseFromArray(b.constData(), b.size())) return c.fail(std::string("not valid protobuf ") + type, b.toHex().toStdString());
        wire(c, m, G{g.get()});
        M n;
        if (c.r.chance(30)) setAll(c, n, 50);
        n.deserialize(&s, b);
        compare(c, m, n, "round trip");
        M copy(m), assigned;
        assigned = n;
        compare(c, m, copy, "copy");
        compare(c, n, assigned, "assignment");
        if (copy != m) c.fail("a copy differs", type);
        copy.setAfter(decltype(copy.after())());
        compare(c, m, n, "independence of the copy");
        result.count("messages_written");
        result.nontrivial(type + canon(*g));
        result.sample(type + (" " + canon(*g)));
    } else {
        // in: what another implementation wrote, fields in any order
        auto g = o.make(type);
        M expect;
        fillBoth(c, expect, G{g.get()}, percent);
        EncodeStyle st;
        st.shuffle = c.r.chance(60);
        st.overlongPercent = c.r.chance(40) ? 30 : 0;
        st.emitDefaultPercent = c.r.chance(40) ? 40 : 0;
        st.unknownPercent = c.r.chance(40) ? 30 : 0;
        st.unknownNested = st.unknownPercent && c.r.chance(50);
        EncodeStats stats;
        std::string b = encode(*g, c.r, st, &stats);
        M m;
        if (c.r.chance(30)) setAll(c, m, 50);
        m.deserialize(&s, QByteArray(b.data(), int(b.size())));
        compare(c, expect, m, "read");
        result.count("messages_read");
        result.nontrivial(type + hex(b));
    }
}
}

void qtTypes(const Oracle &o) {
    QtProtobuf::QProtobufSerializer s;
    QtProtobuf::qRegisterProtobufTypes();
    for (long n = 0; n < options.cases && !result.tooMany(); ++n) {
        Rng r(options.seed * 1000003 + uint64_t(n));
        Case c{r, "qttypes seed=" + std::to_string(options.seed) + " case=" + std::to_string(n)};
        current("qttypes " + c.id);
        try {
            if (n % 2) one<vptypes::GuiTypes>(c, o, s, "vptypes.GuiTypes");
            else one<vptypes::CoreTypes>(c, o, s, "vptypes.CoreTypes");
            if (r.chance(15)) {
                vptypes::Both b, d;
                vptypes::CoreTypes core;
                vptypes::GuiTypes gui;
                setAll(c, core, 60);
                setAll(c, gui, 60);
                b.setCore(core);
                b.setGui(gui);
                b.cores().append(QSharedPointer<vptypes::CoreTypes>(new vptypes::CoreTypes(core)));
                d.deserialize(&s, b.serialize(&s));
                compare(c, core, d.core(), "nested round trip");
                compare(c, gui, d.gui(), "nested round trip");
                if (d.cores().size() != 1) c.fail("list size", std::to_string(d.cores().size()));
                else compare(c, core, *d.cores().first(), "list round trip");
                result.count("nested_messages");
            }
        } catch (const std::exception &e) {
            c.fail("exception", e.what());
        }
        ++result.evaluations;
    }
}
}
