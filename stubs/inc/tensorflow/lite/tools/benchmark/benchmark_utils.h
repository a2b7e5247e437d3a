#pragma once
#include "benchmark_stub.h"
