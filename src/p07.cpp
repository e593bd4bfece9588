#define PROP 7
#include "framing_main.hpp"
