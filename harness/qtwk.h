#pragma once
#include <functional>
#include <string>
#include <vector>
#include "common.h"

namespace vp {
void qtTypes(const Oracle &o);

// the Qt side of the well-known types, without any header of google::protobuf
struct WkType {
    std::string name;
    // reads the bytes and writes them again, after copying the message and comparing the copy
    std::function<std::string(const std::string &)> transcode;
};
const std::vector<WkType> &wkTypes();
struct Stamp { long long seconds; int nanos; };
Stamp stampFromMsecs(long long msecs, int spec);       // Timestamp(QDateTime)
long long msecsFromStamp(long long seconds, int nanos); // operator QDateTime
}
