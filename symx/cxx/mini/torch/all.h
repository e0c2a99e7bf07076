#pragma once
#include "symx_at.h"
