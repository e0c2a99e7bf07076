#include "../../thrust_host.h"
