#include "symx_prelude.h"
