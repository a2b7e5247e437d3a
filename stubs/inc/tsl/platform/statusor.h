#pragma once
#include "convert_stub.h"
