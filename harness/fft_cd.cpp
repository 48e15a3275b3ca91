#include "fft_plans.hpp"

PLANS(cd, std::complex<double>)
