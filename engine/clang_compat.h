// clang's <stddef.h> does not declare ::nullptr_t, which coil (built with gcc here) relies on.
#pragma once
#include <stddef.h>
typedef decltype(nullptr) nullptr_t;
