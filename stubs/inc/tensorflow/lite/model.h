#pragma once
#include "tflite_stub.h"
