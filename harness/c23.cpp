#include "prop.h"
