// stands for the header that the build generates from config.h.cmake (git-ignored build directory)
#ifndef DUNE_ISTL_CONFIG_HH
#define DUNE_ISTL_CONFIG_HH
#include "config.h"
#endif
