// Force-included (-include): nodes.h names ::nullptr_t, which some toolchains
// (gcc via <stddef.h>, MSVC) declare globally and clang 18 with libstdc++ does not.
#pragma once
#include <cstddef>
using std::nullptr_t;
