#include <stdexcept>
#include <QByteArray>
#include <QDateTime>
#include <QTimeZone>
#include <QProtobufSerializer>
#include "google/protobuf/any.qpb.h"
#include "google/protobuf/api.qpb.h"
#include "google/protobuf/duration.qpb.h"
#include "google/protobuf/empty.qpb.h"
#include "google/protobuf/field_mask.qpb.h"
#include "google/protobuf/source_context.qpb.h"
#include "google/protobuf/struct.qpb.h"
#include "google/protobuf/timestamp.qpb.h"
#include "google/protobuf/type.qpb.h"
#include "google/protobuf/wrappers.qpb.h"

#include <functional>
#include <string>
#include <vector>

namespace vp {
struct WkType {
    std::string name;
    std::function<std::string(const std::string &)> transcode;
};
struct Stamp { long long seconds; int nanos; };

template<class T> static WkType wk(const char *name) {
    return {name, [](const std::string &in) {
        QtProtobuf::QProtobufSerializer s;
        T m;
        m.deserialize(&s, QByteArray(in.data(), int(in.size())));
        T copy(m);
        if (m == m && copy != m) throw std::logic_error("a copy differs");
        T assigned;
        assigned = m;
        QByteArray a = m.serialize(&s), b = copy.serialize(&s), c = assigned.serialize(&s);
        if (a.size() != b.size() || a.size() != c.size()) throw std::logic_error("a copy is serialized differently");
        return std::string(c.constData(), size_t(c.size()));
    }};
}

const std::vector<WkType> &wkTypes() {
    using namespace google::protobuf;
    static const std::vector<WkType> t{
        wk<Any>("google.protobuf.Any"), wk<Api>("google.protobuf.Api"), wk<Method>("google.protobuf.Method"), wk<Mixin>("google.protobuf.Mixin"),
        wk<Duration>("google.protobuf.Duration"), wk<Empty>("google.protobuf.Empty"), wk<FieldMask>("google.protobuf.FieldMask"),
        wk<SourceContext>("google.protobuf.SourceContext"), wk<Struct>("google.protobuf.Struct"), wk<Value>("google.protobuf.Value"),
        wk<ListValue>("google.protobuf.ListValue"), wk<Timestamp>("google.protobuf.Timestamp"), wk<Type>("google.protobuf.Type"),
        wk<Field>("google.protobuf.Field"), wk<Enum>("google.protobuf.Enum"), wk<EnumValue>("google.protobuf.EnumValue"), wk<Option>("google.protobuf.Option"),
        wk<DoubleValue>("google.protobuf.DoubleValue"), wk<FloatValue>("google.protobuf.FloatValue"), wk<Int64Value>("google.protobuf.Int64Value"),
        wk<UInt64Value>("google.protobuf.UInt64Value"), wk<Int32Value>("google.protobuf.Int32Value"), wk<UInt32Value>("google.protobuf.UInt32Value"),
        wk<BoolValue>("google.protobuf.BoolValue"), wk<StringValue>("google.protobuf.StringValue"), wk<BytesValue>("google.protobuf.BytesValue")};
    return t;
}

Stamp stampFromMsecs(long long msecs, int spec) {
    QDateTime d = spec == 0 ? QDateTime::fromMSecsSinceEpoch(msecs) : spec == 1 ? QDateTime::fromMSecsSinceEpoch(msecs, Qt::UTC)
                : QDateTime::fromMSecsSinceEpoch(msecs, Qt::OffsetFromUTC, (spec - 7) * 1800);
    google::protobuf::Timestamp t(d, nullptr);
    return {t.seconds(), t.nanos()};
}
long long msecsFromStamp(long long seconds, int nanos) {
    google::protobuf::Timestamp t(seconds, nanos, nullptr);
    QDateTime d = t;
    return d.toMSecsSinceEpoch();
}
}
