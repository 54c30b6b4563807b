#pragma once
#include "os.h"
#include "cx.h"
