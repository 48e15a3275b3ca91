#include "conv.hpp"

namespace nc = neo::convolution;
using cf = std::complex<float>;
using cd = std::complex<double>;
HARNESS(h_upols_f) { run_conv<nc::upols_convolver<cf>, cf>(p, b); }
HARNESS(h_upols_d) { run_conv<nc::upols_convolver<cd>, cd>(p, b); }
HARNESS(h_upola_f) { run_conv<nc::upola_convolver<cf>, cf>(p, b); }
HARNESS(h_upola_d) { run_conv<nc::upola_convolver<cd>, cd>(p, b); }
HARNESS(h_upola2_f) { run_conv<nc::upola_convolver_v2<cf>, cf>(p, b); }
HARNESS(h_upola2_d) { run_conv<nc::upola_convolver_v2<cd>, cd>(p, b); }
HARNESS(h_split_upols_f) { run_conv<nc::split_upols_convolver<cf>, cf>(p, b); }
HARNESS(h_split_upols_d) { run_conv<nc::split_upols_convolver<cd>, cd>(p, b); }
HARNESS(h_split_upola_f) { run_conv<nc::split_upola_convolver<cf>, cf>(p, b); }
HARNESS(h_split_upola_d) { run_conv<nc::split_upola_convolver<cd>, cd>(p, b); }
