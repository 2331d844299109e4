#pragma once
#include "glue.h"
namespace vp { void registerAll(); std::function<void()> &extraMode(); }
