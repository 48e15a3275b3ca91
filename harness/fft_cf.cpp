#include "fft_plans.hpp"

PLANS(cf, std::complex<float>)
