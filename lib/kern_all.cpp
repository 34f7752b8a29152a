#include "kern.h"
namespace kern { std::vector<Kernel> &all() { static std::vector<Kernel> v; return v; } }
