// The build uses g++: after the system headers, code that asks for clang must not see it.
#include <bits/stdc++.h>
#include <oneapi/tbb.h>
#undef __clang__
