#include <cstdint>
#include <cstring>
#include "CommandHandle.hh"
#include "TestExternalInterface.cc"
