// symx: instantiate all of the standard library's templates from the headers (nothing is left to libstdc++.so)
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#undef _GLIBCXX_ASSERTIONS
