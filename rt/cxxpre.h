/* std::string's members are compiled from the headers: the executor has no libstdc++.so */
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
