#pragma once
#include "flexbuffers_stub.h"
