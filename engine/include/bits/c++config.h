// symbolic builds take the std::string members from the headers instead of the library
#include_next <bits/c++config.h>
#ifdef SX_BC
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
