#pragma once
#include "mlir_tf_stub.h"
