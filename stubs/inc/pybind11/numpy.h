#pragma once
#include "pybind_stub.h"
