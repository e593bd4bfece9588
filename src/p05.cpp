#define PROP 5
#include "framing_main.hpp"
