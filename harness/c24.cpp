#define REFLECT
#include "prop.h"
