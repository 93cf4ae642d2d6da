// The test executive of the tree, as a function.
#include "plexil-config.h"
#include "lifecycle-utils.h"
#define plexilRunFinalizers() ((void) 0)
#define main te_main
#include "exec-test-runner.cc"
