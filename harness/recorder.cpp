#include "recorder.h"
