// the same functions as compiled where the standard library has no integral power-of-two functions
#include <bit>
#include <version>
#undef __cpp_lib_int_pow2
#include "ints.hpp"

FOR_U(H_CEIL)
FOR_ALL(H_NEXT)
