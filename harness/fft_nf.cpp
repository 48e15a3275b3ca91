#include "fft_plans.hpp"

PLANS(nf, neo::complex64)
