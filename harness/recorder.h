// Lets script tell the monitor what happened.
#pragma once
#include <QJSValue>
#include <QObject>
#include <functional>
class Recorder : public QObject {
    Q_OBJECT
public:
    std::function<void(int, const QJSValue &)> onResult;
    std::function<void(int, int, const QString &)> onError;
    std::function<void(int, const QString &, const QJSValue &)> onNote;
    Q_INVOKABLE void result(int call, const QJSValue &value) { if (onResult) onResult(call, value); }
    Q_INVOKABLE void error(int call, int code, const QString &message) { if (onError) onError(call, code, message); }
    Q_INVOKABLE void note(int call, const QString &what, const QJSValue &value) { if (onNote) onNote(call, what, value); }
};
