// P23: serializer plugins. One process is one history: a folder with some of the plugins (copies, second names, broken
// and foreign files), then a random sequence of loading, asking for serializers and metadata, and using the serializers,
// against a model of what each library declares.
#include "common.h"
#include "qprotobufserializerregistry_p.h"
#include "qprotobufserializer.h"
#include "vpplugin.qpb.h"

#include <QCoreApplication>
#include <QDir>
#include <QFile>
#include <QTemporaryDir>

using namespace QtProtobuf;
using vp::Rng;
using vp::result;
using vp::options;

namespace {
struct Lib { const char *file; QString name; float version, protobuf; int rating; QStringList types; bool usable; };

std::string s(const QString &q) { return q.toStdString(); }

struct Entry { QString base; const Lib *lib; };   // lib null: not a plugin, or nothing there

}

int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    vp::parseOptions(argc, argv);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    QtProtobuf::qRegisterProtobufTypes();
    const std::vector<Lib> libs = {
        {"vpplain", "Plain", 1.5f, 3.0f, 7, {"protobuf", "json"}, true},
        {"vpone", "One type", 2.0f, 3.25f, -3, {"text"}, true},
        {"vpmany", QString::fromUtf8("Many.types/é漢"), 0.125f, 2.0f, 2147483647, {"protobuf", "xml", QString::fromUtf8("x-ü"), "protobuf2", "PROTOBUF", "a b"}, true},
        {"vptwin", "Plain", 9.5f, 9.0f, 99, {"protobuf", "cbor"}, true},
        {"vpbuiltin", "Default", 4.5f, 4.0f, 5, {"protobuf", "own"}, true},
        {"vpnone", "No types", 6.5f, 5.5f, 0, {}, true},
        {"vpcase", "plain", 1.75f, 3.5f, 1, {"json", "protobuf"}, true},
        {"vpalien", "Alien", 8.5f, 8.0f, 8, {"protobuf"}, false},
    };
    Rng r(options.seed);
    const QString from = QString::fromStdString(options.more["plugins"]);
    QTemporaryDir dir(QString::fromStdString(options.more["scratch"]) + "/vpplugin-XXXXXX");
    if (!dir.isValid()) {
        fprintf(stderr, "no scratch folder\n");
        return 3;
    }
    std::vector<Entry> entries;
    for (const Lib &l : libs) {
        if (!r.chance(80))
            continue;
        QString base = QString(l.file).mid(2);
        if (r.chance(20))
            base += QString::fromUtf8(" ß");
        const QString to = dir.path() + "/lib" + base + ".so";
        if (r.chance(30) ? !QFile::link(from + "/lib" + l.file + ".so", to) : !QFile::copy(from + "/lib" + l.file + ".so", to)) {
            fprintf(stderr, "no copy of %s\n", l.file);
            return 3;
        }
        entries.push_back({base, &l});
        if (r.chance(30)) {   // the same plugin under a second file name
            QFile::copy(from + "/lib" + l.file + ".so", dir.path() + "/lib" + base + "-again.so");
            entries.push_back({base + "-again", &l});
        }
    }
    auto junk = [&](const QString &base, const QByteArray &data) {
        QFile f(dir.path() + "/lib" + base + ".so");
        f.open(QIODevice::WriteOnly);
        f.write(data);
        entries.push_back({base, nullptr});
    };
    if (r.chance(60)) junk("empty", QByteArray());
    if (r.chance(60)) junk("text", QByteArray("not a library, though it says QTMETADATA  !"));
    if (r.chance(60)) {   // the beginning of a real plugin
        QFile f(from + "/libvpplain.so");
        f.open(QIODevice::ReadOnly);
        junk("cut", f.read(long(r.below(2000))));
    }
    if (r.chance(50)) { QDir(dir.path()).mkdir("libfolder.so"); entries.push_back({"folder", nullptr}); }
    entries.push_back({"missing", nullptr});
    entries.push_back({"not/there", nullptr});
    qputenv("QT_PROTOBUF_PLUGIN_PATH", dir.path().toUtf8());

    auto &registry = QProtobufSerializerRegistry::instance();
    std::map<QString, const Lib *> loaded;                                             // by declared name, the first one stays
    std::map<std::pair<QString, QString>, QAbstractProtobufSerializer *> handed;       // by plugin and type, once one was handed out
    QAbstractProtobufSerializer *builtin = nullptr;
    QStringList names{"Plain", "plain", "One type", QString::fromUtf8("Many.types/é漢"), "Default", "No types", "Alien", "", "Unknown", "PLAIN", "Plain "};
    QStringList types{"protobuf", "json", "text", "xml", QString::fromUtf8("x-ü"), "protobuf2", "PROTOBUF", "a b", "cbor", "own", "", "nope"};
    std::string history;

    auto use = [&](QAbstractProtobufSerializer *ser, const QByteArray &tag, const std::string &what) {
        vpplugin::Note note;
        note.setNumber(int(r.next()));
        note.setText(QString::fromStdString(std::to_string(r.next())));
        QtProtobuf::fixed32List numbers;
        for (int i = int(r.below(4)); i > 0; --i)
            numbers.append(QtProtobuf::fixed32(r.next()));
        note.setNumbers(numbers);
        QProtobufSerializer standard;
        const QByteArray expected = tag + note.serialize(&standard);
        const QByteArray data = note.serialize(ser);
        if (data != expected)
            result.violation("serializer-output", what + " wrote " + vp::hex(data.toStdString()) + ", not " + vp::hex(expected.toStdString()), history);
        vpplugin::Note back;
        try {
            back.deserialize(ser, expected);
            if (back != note)
                result.violation("serializer-input", what + " read back another value", history);
        } catch (std::exception &e) {
            result.violation("serializer-input", what + " did not read its own output: " + e.what(), history);
        }
        result.count("messages written and read by a serializer");
    };

    for (long step = 0; step < options.cases && !result.tooMany(); ++step) {
        ++result.evaluations;
        const int op = int(r.below(10));
        if (op < 3) {
            const Entry &e = r.pick(entries);
            history += "load " + s(e.base) + "; ";
            vp::current(history);
            const QString got = registry.loadPlugin(e.base);
            const QString want = e.lib ? e.lib->name : QString();
            if (got != want)
                result.violation("load-name", "loading " + s(e.base) + " gave the name \"" + s(got) + "\" instead of \"" + s(want) + "\"", history);
            if (e.lib && e.lib->name != "Default" && loaded.insert({e.lib->name, e.lib}).second)
                result.see("loaded", e.lib->file);
            result.count(!e.lib ? "unusable files loaded" : "plugins loaded");
            result.nontrivial(history.size() > 400 ? history.substr(history.size() - 400) : history);
        } else if (op < 7) {
            const bool plain = r.chance(15);
            QString name = plain ? "Default" : r.pick(names), type = r.pick(types);
            if (!plain && r.chance(50) && !loaded.empty()) {
                auto it = loaded.begin();
                std::advance(it, long(r.below(loaded.size())));
                name = it->first;
                if (!it->second->types.isEmpty() && r.chance(80))
                    type = r.pick(it->second->types);
            }
            history += "get " + s(type) + " of " + (plain ? "the built-in" : s(name)) + "; ";
            vp::current(history);
            if (name == "Default" && type == "json")
                continue;   // the built-in JSON serializer is left out of this build
            auto it = loaded.find(name);
            const bool want = name == "Default" ? type == "protobuf" : it != loaded.end() && it->second->usable && it->second->types.contains(type);
            std::shared_ptr<QAbstractProtobufSerializer> ser;
            bool threw = false;
            try {
                ser = plain ? registry.getSerializer(type) : registry.getSerializer(type, name);
            } catch (const std::exception &) {
                threw = true;
            }
            const std::string what = "serializer " + s(type) + " of \"" + s(name) + "\"";
            if (want != !threw)
                result.violation(want ? "serializer-missing" : "serializer-unknown", what + (want ? " is declared by a loaded plugin but was refused" : " was handed out though no loaded plugin declares it"), history);
            else if (want && !ser)
                result.violation("serializer-null", what + " is null", history);
            else if (want) {
                auto &first = name == "Default" ? builtin : handed[{name, type}];
                if (first && first != ser.get())
                    result.violation("serializer-changed", what + " is another object than before", history);
                first = ser.get();
                use(ser.get(), name == "Default" ? QByteArray() : QByteArray("<") + it->second->file + "/" + type.toUtf8() + ">", what);
                result.see("serializers", (it == loaded.end() ? "built-in" : it->second->file) + ("/" + s(type)));
                result.nontrivial(history.size() > 400 ? history.substr(history.size() - 400) : history);
            }
            result.count(want ? "serializers handed out" : "serializers refused");
        } else {
            const QString name = r.chance(60) && !loaded.empty() ? std::next(loaded.begin(), long(r.below(loaded.size())))->first : r.pick(names);
            history += "metadata of " + s(name) + "; ";
            vp::current(history);
            if (name == "Default" || name.isEmpty())
                continue;
            auto it = loaded.find(name);
            const bool known = it != loaded.end();
            if (known && !it->second->usable)
                continue;
            const float version = registry.pluginVersion(name), protobuf = registry.pluginProtobufVersion(name);
            const int rating = registry.pluginRating(name);
            const QStringList list = registry.pluginSerializers(name);
            if (version != (known ? it->second->version : 0) || protobuf != (known ? it->second->protobuf : 0) || rating != (known ? it->second->rating : 0)
                    || list != (known ? it->second->types : QStringList()))
                result.violation("metadata", "metadata of \"" + s(name) + "\" (" + (known ? it->second->file : "not loaded") + "): version " + std::to_string(version) + ", protobuf " + std::to_string(protobuf)
                                 + ", rating " + std::to_string(rating) + ", types " + s(list.join(",")), history);
            result.count(known ? "metadata of loaded plugins read" : "metadata of unknown plugins asked for");
        }
    }
    result.sample(history);
    result.count("finished");
    result.write(options.out);
    vp::current("at the end of the process: " + history);
    return 0;
}
