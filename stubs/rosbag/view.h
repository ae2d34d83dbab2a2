#include "rossim.h"
