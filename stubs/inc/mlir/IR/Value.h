#pragma once
#include "mlir_stub.h"
