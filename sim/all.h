// First include of every generated translation unit (precompiled).
#pragma once
#include <k3/tok3n.h>
#include "harness.h"
