// Shadows libstdc++'s configuration header: the standard library templates are instantiated from
// their headers, so that the executor runs their real code instead of calling into libstdc++.so.
#pragma once
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
