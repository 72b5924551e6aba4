// Makes clang instantiate the libstdc++ stream and string templates in every translation unit, so that their
// code is part of the IR that is executed symbolically.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
