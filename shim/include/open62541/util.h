#include "types.h"
