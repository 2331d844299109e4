// A serializer plugin: its serializers write the standard encoding behind a tag that names the library and the type.
#pragma once
#include <QObject>
#include "qprotobufserializationplugininterface.h"

#ifdef VP_ALIEN
class VpAlienInterface { public: virtual ~VpAlienInterface() = default; };
#define VpAlien_iid "org.vp.alien"
Q_DECLARE_INTERFACE(VpAlienInterface, VpAlien_iid)
class VpPlugin : public QObject, public VpAlienInterface
{
    Q_OBJECT
    Q_PLUGIN_METADATA(IID VpAlien_iid FILE "meta.json")
    Q_INTERFACES(VpAlienInterface)
};
#else
class VpPlugin : public QObject, public QtProtobuf::QProtobufSerializationPluginInterface
{
    Q_OBJECT
    Q_PLUGIN_METADATA(IID SerializatorInterface_iid FILE "meta.json")
    Q_INTERFACES(QtProtobuf::QProtobufSerializationPluginInterface)
public:
    std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> serializer(const QString &serializerName) override;
};
#endif
