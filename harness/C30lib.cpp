// lib/compile_cl.cpp on files in the memory of the harness
#define VP_TOOL
#include "main_env.hpp"
#include VP_COMPILE
