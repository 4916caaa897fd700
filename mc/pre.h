// Forced include for instrumented translation units: makes shared_ptr
// reference counts external functions, so that the engine provides them.
#include <bits/c++config.h>
#undef _GLIBCXX_ATOMIC_BUILTINS
