#pragma once
#include <stddef.h>
typedef decltype(nullptr) nullptr_t;
