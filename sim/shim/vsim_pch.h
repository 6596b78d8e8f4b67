// Precompiled header of the simulated build.
#include <vt/transport.h>
#include <nlohmann/json.hpp>
