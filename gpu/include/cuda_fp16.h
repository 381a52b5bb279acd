#pragma once
#include "cuda_runtime.h"
struct __half { unsigned short v; };
typedef __half half;
