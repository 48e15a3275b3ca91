"""How each property is decided: bounds, oracle, cost (rendered into DESIGN.md)."""
B = {
'C01': 'Polynomial domain. All plan types in both directions, float and double, std::complex and library complex, xsimd batch elements, in place, copying, strided, repeated use, round trip. Oracle: DFT matrix computed with exact integer phase reduction. Sizes: every radix power up to 256 (quick; thorough 1024). Cost 25 s. A linear map agrees with the DFT matrix for *all* inputs or not at all, which sampled vectors and round trips cannot settle.',
'C02': 'Polynomial domain, DFT-matrix oracle, n = 1..256 (thorough 1024), default and experimental plan, inverse on every Hermitian spectrum, pair separation for many lengths. Cost 8 s.',
'C03': 'Polynomial domain, DFT-matrix oracle, n = 1..256, all configurations, in and out of place. Cost 8 s.',
'C04': 'Polynomial domain, DFT-matrix oracle, lengths 1.. ~34 plus larger primes, both directions, repeated plan use. Cost 10 s.',
'C05': 'Polynomial domain, DCT-II matrix oracle, n = 1..256. Cost 5 s.',
'C06': 'Polynomial domain; oracle frames, windows and transforms the symbolic signal by definition; frame count from "every sample is covered". Cost 11 s.',
'C07': 'Symbolic elements are moved, never computed: output must be the same variable as the digit-reversed input position. Cost 4 s.',
'C08': 'Polynomial domain, degree 2: taps and samples both symbolic; oracle is the convolution sum over the whole stream history. Histories: partitions+3 blocks, reloads after streaming; channels; configurations. A linear variant (fixed taps, symbolic samples) reaches larger blocks and more partitions. Cost 12 s.',
'C09': 'As C08 with chunk patterns (all patterns of chunks >= one block up to a stream length in thorough). Cost 10 s.',
'C10': 'Polynomial domain; block 1..8, filters to 12 taps (thorough 16/19), enough blocks for the whole tail. Cost 7 s.',
'C11': 'Polynomial domain; sparsity patterns as concrete choices, taps and samples symbolic; oracle zeroes the dropped bins and convolves. Cost 12 s.',
'C12': 'Bit-precise; insertion positions and values symbolic (paths fork over every feasible position), oracle is a map; construction over every subset. Cost 20 s.',
'C13': 'Polynomial domain, degree 2, size pairs up to 20 (thorough 40). Cost 6 s.',
'C14': 'Bit-precise, the number of segments symbolic (forked), 14 steps (thorough 40) with a reset at every point. Cost 30 s.',
'C15': 'Polynomial domain, degree 2, lengths around every vector width, seven build configurations. Cost 15 s.',
'C16': 'Polynomial domain; guard elements around every view must keep their value. Cost 11 s.',
'C17': 'Polynomial domain (mean, variance, MSE), real arithmetic (square roots). Cost 7 s.',
'C18': 'Real arithmetic. Cost 6 s.',
'C19': 'Bit-precise IEEE arithmetic including NaN and infinities; complex in real arithmetic. Cost 21 s.',
'C20': 'Bit-precise over every pair of bit patterns of 8- and 16-bit storage and all fractional-bit counts in use; oracle in wide bit-vectors. Cost 6 s.',
'C21': 'Bit-precise IEEE arithmetic over every float and every stored value. Cost 20 s.',
'C22': 'Bit-precise; array lengths around the vector widths, six build configurations, every element value. Cost 17 s.',
'C23': 'Bit-precise per lane for every SIMD type of every configuration. Cost 11 s.',
'C24': 'Bit-precise over every operand; the known wrong product is matched exactly, any other deviation is a violation. Cost 6 s.',
'C25': 'Polynomial domain, every vector type of every configuration. Cost 4 s.',
'C26': 'Real arithmetic with exact integer conversion (linear integer arithmetic): segments, bins and insertions symbolic in value and slot; 8-bit views also bit-precise. Cost 15 s.',
'C27': 'Bit-precise; cvc5 with bit-vectors as integers for quotients and products; the variant for standard libraries without integral power-of-two functions is compiled too. Cost 65 s.',
'C28': 'Real arithmetic, logarithms and powers by their laws (product, quotient, power, monotonicity, inverse), the estimate by piecewise enclosure of the logarithm over the symbolic mantissa. Cost 20 s.',
'C29': 'Real arithmetic over symbolic exponent and mantissa; 48 pieces of chord/tangent enclosure of log2. Cost 3 s.',
'C30': 'Polynomial domain per size (constants), plus real arithmetic with symbolic size and index up to 2^20 (trigonometric laws). Cost 35 s.',
'C31': 'Real arithmetic; symbolic frequency, sample rate, size and index. Cost 3 s.',
'C32': 'Polynomial domain for ring operations with rounding bound, real arithmetic for division and magnitude. Cost 4 s.',
'C33': 'Bit-precise: the order is one symbolic 64-bit value; above the maximum every path must end in an exception (a path that reaches a large allocation counts as accepted), supported orders fork over all values up to 2^6, 3^4, 4^3, 5^3, 8^2 points; overlap sizes up to 6 x 6. Cost 70 s.',
}
