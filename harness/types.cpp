#include "types.h"
#include "common.h"
#include <algorithm>
#include "qprotobufobject.h"
#include "qtprotobufglobal.h"

namespace vp {
static std::vector<std::function<TypeOps()>> &pending() { static std::vector<std::function<TypeOps()>> p; return p; }
std::vector<TypeOps> &types() { static std::vector<TypeOps> t; return t; }
Registrar::Registrar(const std::function<TypeOps()> &f) { pending().push_back(f); }
std::function<void()> &extraMode() { static std::function<void()> f; return f; }
void nullElement(const gp::FieldDescriptor *f) {
    result.violation("null element " + f->full_name(), "a repeated or map field holds a null message where a message was transmitted", "");
}
void duplicateKey(const gp::FieldDescriptor *f) {
    result.violation("duplicate key " + f->full_name(), "a map field holds the same key more than once", "");
}
void registerAll() {
    QtProtobuf::qRegisterProtobufTypes();
    for (auto &f : pending()) {
        types().push_back(f());
    }
    std::sort(types().begin(), types().end(), [](const TypeOps &a, const TypeOps &b) { return a.name < b.name; });
}
}
