#include "fft_plans.hpp"

PLANS(nd, neo::complex128)
