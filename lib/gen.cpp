// The document generator and the JSON tools of the checks, compiled optimised and without sanitizers into a shared
// library of its own (-Bsymbolic: it uses its own template instances, the code under test keeps the sanitized ones).
#define PBT_GEN
#define PBT_NO_MAIN
#include "defect.hpp"
