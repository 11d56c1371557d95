// Forced include (proof build only): instantiate libstdc++ templates from the
// headers instead of relying on the compiled library, and keep the libstdc++
// precondition checks (operator[] range, front() on empty, ...) as obligations.
#pragma once
#define _GLIBCXX_ASSERTIONS 1
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
