#include "log.h"
