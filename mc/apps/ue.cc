// universalExec of the tree, as a function.
#include <cstdint>
#include "plexil-config.h"
#include "lifecycle-utils.h"
#define plexilRunFinalizers() ((void) 0)
#define main ue_main
#define main_internal ue_internal
#include "UniversalExec.cc"
