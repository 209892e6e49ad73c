// Stand-in for mp++ (which is not installed in this sandbox): configuration.
#pragma once
#include <cstddef>
#include <cstdint>
#define MPPP_HAVE_GCC_INT128
