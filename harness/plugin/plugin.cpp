#include "plugin.h"
#ifndef VP_ALIEN
#include "qprotobufserializer.h"
using namespace QtProtobuf;

namespace {
class Tagged : public QProtobufSerializer
{
public:
    explicit Tagged(const QByteArray &tag) : m_tag(tag) {}
protected:
    QByteArray serializeMessage(const QObject *object, const QProtobufMetaObject &metaObject) const override {
        return m_tag + QProtobufSerializer::serializeMessage(object, metaObject);
    }
    void deserializeMessage(QObject *object, const QProtobufMetaObject &metaObject, const QByteArray &data) const override {
        if (!data.startsWith(m_tag)) {
            throw std::invalid_argument("not the tag of this serializer");
        }
        QProtobufSerializer::deserializeMessage(object, metaObject, data.mid(m_tag.size()));
    }
private:
    QByteArray m_tag;
};
}

std::shared_ptr<QAbstractProtobufSerializer> VpPlugin::serializer(const QString &serializerName)
{
    return std::make_shared<Tagged>(QByteArray("<" VP_TAG "/") + serializerName.toUtf8() + ">");
}
#endif
