// Everything of the standard library that is a template is compiled, and instrumented, with the code under test.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <limits>
