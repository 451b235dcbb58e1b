#define VP_TOOL
#include "main_env.hpp"
#include VP_MAIN
