#pragma once
#include "ruy_stub.h"
