#define PROP 8
#include "framing_main.hpp"
