#define PROP 6
#include "framing_main.hpp"
