#include "node.h"
