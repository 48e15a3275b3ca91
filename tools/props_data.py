"""The property list: rendered into properties.jsonl and MANIFEST.json by tools/gen.py."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


F = 'src/neo/'
POLY = ('symbolic execution of the LLVM IR compiled from the current headers in a polynomial domain (every sample a symbolic variable, '
        'rounding a propagated error bound); z3 (QF_LRA) decides |result - specification| <= tolerance for all inputs')
BV = 'bit-precise symbolic execution of the LLVM IR compiled from the current headers; z3 (QF_BV/QF_FPBV, cvc5 as second solver) decides the specification for all inputs'
REAL = 'symbolic execution of the LLVM IR compiled from the current headers over real arithmetic; z3 (NRA) decides the specification for all inputs'
NT = 'Holds for every input within the stated sizes; sizes beyond them, NaN and infinities are outside.'

prop('C01', 'Every complex FFT plan computes the DFT in both directions',
     'Every complex FFT plan the library offers (all radix-2, 3, 4, 5 and 8 plans, recursive, iterative and Stockham, and the default plan) returns, '
     'for every supported order and every input, the discrete Fourier transform of the input in natural order, exp(-i...) forward and exp(+i...) '
     'backward, unnormalised. In-place and copying calls, contiguous and strided views, scalar and batched SIMD element types agree, a plan can be used any number of times, and forward '
     'followed by backward returns the input scaled by its length.',
     ['inputs', 'configurations'], 'all sample values; every plan type, order and direction (sizes up to a few hundred points), element types and instruction sets',
     'Tests compare a few seeded random vectors, most plans only through a round trip and only radix-2 orders; a wrong twiddle that cancels in the round trip passes.',
     [F + 'fft/fft.hpp', F + 'fft/reference/c2c_dit2_plan.hpp', F + 'fft/reference/kernel/c2c_dit2.hpp', F + 'fft/reference/c2c_stockham_dif2_plan.hpp',
      F + 'fft/reference/c2c_stockham_dif8_plan.hpp', F + 'fft/reference/c2c_dit4_plan.hpp', F + 'fft/twiddle.hpp'],
     [('twiddle tables', F + 'fft/twiddle.hpp'), ('butterfly stages', F + 'fft/reference/'), ('digit reversal', F + 'fft/reference/bitrevorder.hpp')],
     POLY, NT)
prop('C02', 'Real FFT plans and spectrum helpers match the DFT of the real signal',
     'The real FFT of every power-of-two length signal equals the non-redundant half (bins 0..N/2) of its DFT, and the inverse transform of any spectrum '
     'of a real signal returns that signal scaled by N. Packing two real signals into one complex transform and separating their spectra gives exactly the two individual spectra.',
     ['inputs', 'configurations'], 'all sample and bin values, orders 0 up to a few hundred points, float and double, default and experimental plans, strided views',
     'Tests check round trips of a few random vectors; a forward error undone by the inverse is invisible to them.',
     [F + 'fft/rfft.hpp', F + 'fft/fallback/fallback_rfft_plan.hpp', F + 'fft/experimental/rfft.hpp'],
     [('real plan', F + 'fft/fallback/fallback_rfft_plan.hpp'), ('rfft_deinterleave', F + 'fft/rfft.hpp')], POLY, NT)
prop('C03', 'FFT on split real/imaginary arrays equals the DFT',
     'The FFT working on separate real and imaginary arrays returns the DFT of that complex input in both directions, in place and out of place, '
     'for every supported order, and leaves the input of an out-of-place call alone.',
     ['inputs', 'configurations'], 'all sample values, orders 0 up to a few hundred points, float and double, instruction sets',
     'Tests compare a few random vectors with the interleaved plan.',
     [F + 'fft/split_fft.hpp', F + 'fft/fallback/fallback_split_fft_plan.hpp'], [('split butterflies', F + 'fft/fallback/fallback_split_fft_plan.hpp')], POLY, NT)
prop('C04', 'DFT of arbitrary length equals the defining sum',
     'The plain DFT routine and the DFT plan for arbitrary (also prime and odd) lengths return the defining DFT sum in both directions for every input and length, '
     'and repeated use of one plan does not change its results.',
     ['inputs', 'configurations'], 'all sample values; lengths 1 to a few dozen including primes, powers of two and composites',
     'Tests use a handful of lengths with one random vector each.',
     [F + 'fft/dft.hpp', F + 'fft/fallback/fallback_dft_plan.hpp'], [('defining sum', F + 'fft/dft.hpp'), ('Bluestein chirp', F + 'fft/fallback/fallback_dft_plan.hpp')], POLY, NT)
prop('C05', 'The DCT-II plan computes the type-II cosine transform',
     'The cosine transform plan returns the unnormalised type-II discrete cosine transform of every power-of-two length input.',
     ['inputs', 'configurations'], 'all sample values, orders 0 up to a few hundred points, float and double',
     'Tests use two vectors of fixed length.', [F + 'fft/dct.hpp'], [('reordering and phase rotation', F + 'fft/dct.hpp')], POLY, NT)
prop('C06', 'Short-time Fourier transform frames the signal completely and correctly',
     'The short-time Fourier transform cuts every channel into frames at multiples of the hop, applies the window, zero-pads to the transform size and returns the DFT of each frame, '
     'with enough frames that no sample of the signal is lost. Uniform partitioning of an impulse response yields for each partition the spectrum of exactly that slice, zero-padded to twice the block.',
     ['inputs', 'configurations'], 'all sample values; channels, signal lengths, frame and hop sizes',
     'Tests check two shapes; a dropped last frame or channel needs other lengths.',
     [F + 'fft/stft.hpp', F + 'convolution/uniform_partition.hpp'], [('frame count and framing', F + 'fft/stft.hpp'), ('uniform_partition', F + 'convolution/uniform_partition.hpp')], POLY, NT)
prop('C07', 'Bit and digit reversal reorderings are the exact permutations',
     'Bit-reversal and digit-reversal reorderings move every element to the position given by reversing the digits of its index in the given radix, losing and duplicating nothing, and applying one twice restores the order.',
     ['inputs', 'configurations'], 'all element values, every supported size and radix within bounds',
     'Tests check two hard-coded sizes.', [F + 'fft/reference/bitrevorder.hpp', F + 'fft/reference/digitrevorder.hpp'],
     [('index tables', F + 'fft/reference/bitrevorder.hpp'), ('digit reversal', F + 'fft/reference/digitrevorder.hpp')], POLY, NT)
prop('C08', 'Partitioned convolvers output the linear convolution of the whole stream',
     'Every uniformly partitioned convolver (overlap-save, overlap-add, split-complex and multi-channel variants), fed a signal block by block, outputs exactly the linear convolution of all input so far with the whole impulse response. '
     'This holds for every block size, number of partitions and stream length, independently per channel, and loading a new impulse response starts from silence.',
     ['inputs', 'histories', 'configurations'], 'all taps and samples, block sizes, numbers of partitions, histories of blocks and filter reloads',
     'Tests stream one or two random signals with an identity impulse or compare against one other implementation; ring-buffer and partition-order errors depend on history and sizes.',
     [F + 'convolution/uniform_partitioned_convolver.hpp', F + 'convolution/overlap_save.hpp', F + 'convolution/overlap_add.hpp', F + 'convolution/dense_filter.hpp', F + 'convolution/dense_fdl.hpp', F + 'convolution/dense_convolver.hpp'],
     [('delay line and filter multiply-add', F + 'convolution/uniform_partitioned_convolver.hpp'), ('block transforms', F + 'convolution/overlap_save.hpp')], POLY, NT)
prop('C09', 'The streaming convolver is independent of how input is chunked',
     'The streaming overlap-add convolver accepts input in chunks of at least one block and outputs the same linear convolution of the stream with the impulse response however the stream is cut into chunks.',
     ['inputs', 'histories'], 'all taps and samples; chunk sequences, block sizes, numbers of partitions',
     'Tests feed equal blocks only.', [F + 'convolution/overlap_add_convolver.hpp'], [('partial-block bookkeeping', F + 'convolution/overlap_add_convolver.hpp')], POLY, NT)
prop('C10', 'Overlap-add and overlap-save handle any block and filter size',
     'Block-wise overlap-add and overlap-save filtering with any spectrum multiplication reproduces the linear convolution for every block size and filter length, including filters much longer than a block and sizes that are not powers of two, with the tail carried over correctly into the following blocks.',
     ['inputs', 'histories', 'configurations'], 'all taps and samples; block sizes and filter lengths; number of blocks',
     'Tests use an identity filter and one shape.', [F + 'convolution/overlap_add.hpp', F + 'convolution/overlap_save.hpp'],
     [('overlap buffers', F + 'convolution/overlap_add.hpp'), ('sliding window', F + 'convolution/overlap_save.hpp')], POLY, NT)
prop('C11', 'Sparse convolvers equal dense convolution with the kept bins',
     'The sparse partitioned convolvers output the result of the dense partitioned convolution in which every filter bin that was not kept is zero; if everything is kept, this is the linear convolution.',
     ['inputs', 'histories', 'configurations'], 'all taps and samples; sparsity patterns, block sizes, partitions',
     'Tests keep everything and compare one random stream.', [F + 'convolution/sparse_convolver.hpp', F + 'convolution/sparse_filter.hpp', F + 'container/csr_matrix.hpp'],
     [('sparse filter construction', F + 'convolution/sparse_filter.hpp'), ('row multiply-add', F + 'algorithm/multiply_add.hpp')], POLY, NT)
prop('C12', 'The sparse matrix behaves as the map of inserted entries',
     'After any sequence of insertions the compressed sparse matrix returns the last value inserted at each position and zero elsewhere, its size counters are consistent, and its row, column and value views list the entries row by row in increasing column order. '
     'Construction from a dense matrix keeps exactly the selected entries, and sparse row multiply-add equals the dense formula for every column.',
     ['inputs', 'histories'], 'all insertion sequences, positions and values within the shapes; all selections',
     'Tests insert two fixed sequences.', [F + 'container/csr_matrix.hpp', F + 'algorithm/multiply_add.hpp'], [('insert and lookup', F + 'container/csr_matrix.hpp')],
     BV + '; positions fork over all feasible values', NT)
prop('C13', 'One-shot convolution equals the convolution sum',
     'Direct and FFT-based one-shot convolution return, for every pair of signals of any (also unequal, odd or prime) lengths, the full linear convolution sum, with length n+m-1.',
     ['inputs', 'configurations'], 'all sample values; size pairs', 'Tests check a few fixed vectors in one mode.',
     [F + 'convolution/direct_convolve.hpp', F + 'convolution/fft_convolver.hpp'], [('direct sum', F + 'convolution/direct_convolve.hpp'), ('zero-padded transform', F + 'convolution/fft_convolver.hpp')], POLY, NT)
prop('C14', 'The delay-line index visits the filter partitions newest first',
     'For any number of segments and any number of steps, the delay-line schedule writes the newest spectrum into each slot in turn, wrapping around, and pairs every stored spectrum with the filter partition of its age, newest with the first, each exactly once per step. A reset starts the schedule again from the first slot.',
     ['histories', 'inputs'], 'all numbers of segments within bounds, long step sequences, resets at every point', 'Tests step a handful of times for one or two sizes.',
     [F + 'convolution/fdl_index.hpp'], [('write position and two-part loop', F + 'convolution/fdl_index.hpp')], BV, NT)
prop('C15', 'Multiply-add equals x*y+z elementwise on every layout and instruction set',
     'Dense multiply-add on real, complex and split-complex vectors computes x*y+z (complex product) for each element and nothing else, for every length, for contiguous and strided views, when the output aliases an operand, and on every instruction set the library selects.',
     ['inputs', 'configurations'], 'all element values; lengths including non-multiples of the vector width; aliasing, strides, element types, instruction sets',
     'Tests use a few lengths and one build configuration.', [F + 'algorithm/multiply_add.hpp', F + 'complex/split_complex.hpp', F + 'simd/native.hpp'],
     [('vector loop and scalar tail', F + 'algorithm/multiply_add.hpp')], POLY, NT)
prop('C16', 'Elementwise add, multiply, scale, fill and copy act on every element',
     'Adding, multiplying, scaling, filling and copying vectors and matrices (real, complex and split-complex) compute exactly the elementwise result for every element of any shape, layout and stride, and touch nothing outside the output view.',
     ['inputs', 'configurations'], 'all element values; shapes, layouts, strides, element types, aliasing', 'Tests use two shapes in one layout.',
     [F + 'algorithm/add.hpp', F + 'algorithm/multiply.hpp', F + 'algorithm/scale.hpp', F + 'algorithm/fill.hpp', F + 'algorithm/copy.hpp', F + 'algorithm/backend/linalg_binary_op.hpp'],
     [('elementwise loops', F + 'algorithm/backend/linalg_binary_op.hpp')], POLY, NT)
prop('C17', 'Mean, variance, deviation and squared errors follow their definitions',
     'Mean, (population) variance, standard deviation, mean squared error and root mean squared error of a vector or matrix in any layout equal their textbook definitions over all elements. '
     'No mean is returned for an empty and no variance or deviation for fewer than two elements.',
     ['inputs', 'configurations'], 'all element values; shapes, layouts, strides, element types', 'Tests use constant or tiny inputs.',
     [F + 'algorithm/mean.hpp', F + 'algorithm/variance.hpp', F + 'algorithm/standard_deviation.hpp', F + 'algorithm/mean_squared_error.hpp', F + 'algorithm/root_mean_squared_error.hpp'],
     [('accumulation loops', F + 'algorithm/mean.hpp')], POLY + '; square roots by ' + REAL, NT)
prop('C18', 'Normalisation scales by one common factor to the target level',
     'Peak normalisation scales all elements by one positive factor so that the largest magnitude is one, energy normalisation so that the sum of squares is one, and impulse normalisation scales all channels by one factor so that the most energetic channel has energy one; silent signals are left unchanged.',
     ['inputs', 'configurations'], 'all element values; shapes and layouts', 'Tests use single vectors.',
     [F + 'algorithm/normalize_peak.hpp', F + 'algorithm/normalize_energy.hpp', F + 'convolution/normalize_impulse.hpp'],
     [('peak search and scaling', F + 'algorithm/normalize_peak.hpp')], REAL, NT)
prop('C19', 'Tolerance and predicate comparisons consider every element',
     'Comparing two containers with a tolerance is true exactly if the magnitude of every elementwise difference is at most the tolerance (the given one, or the default of the element type), matching with a predicate exactly if the predicate holds for every element, and exact equality compares exactly.',
     ['inputs', 'configurations'], 'all element bit patterns including NaN and infinities; shapes, layouts, strides', 'Tests compare a few equal or clearly different vectors.',
     [F + 'algorithm/allclose.hpp', F + 'algorithm/allmatch.hpp', F + 'math/float_equality.hpp'], [('element loops', F + 'algorithm/allmatch.hpp')], BV + '; complex by ' + REAL, NT)
prop('C20', 'Fixed-point scalar arithmetic saturates and compares exactly',
     'Fixed-point addition, subtraction and negation return the exact result clamped to the representable range, multiplication the exact product rounded down to the resolution and clamped, and comparisons agree with the comparison of the represented values, for every pair of stored values.',
     ['inputs', 'configurations'], 'every pair of bit patterns; 8- and 16-bit storage with every number of fractional bits in use', 'Tests sample a few values; saturation and sign corner cases are few among all pairs.',
     [F + 'fixed_point/fixed_point.hpp'], [('saturating operators', F + 'fixed_point/fixed_point.hpp')], BV, 'All bit patterns.')
prop('C21', 'Conversion between floating point and fixed point is accurate and clamped',
     'Converting a floating-point number (other than NaN) to fixed point gives the representable value nearest to it or its truncation, within one resolution step, clamped to the representable range outside it; converting back gives exactly the represented value.',
     ['inputs', 'configurations'], 'every float bit pattern; every stored value; all widths and fractional bits in use', 'Tests sample a handful of values in range.',
     [F + 'fixed_point/fixed_point.hpp'], [('converting constructor', F + 'fixed_point/fixed_point.hpp')], BV, 'All bit patterns.')
prop('C22', 'Fixed-point array operations equal the scalar operation per element',
     'Adding, subtracting and multiplying arrays of fixed-point numbers gives for each element the result of the scalar operation (sums and differences exactly and saturating, products to within one resolution step and clamped to the range, keeping their sign), for every array length (also those that are not a multiple of the vector width), every element value and every instruction set.',
     ['inputs', 'configurations'], 'every element bit pattern; lengths around multiples of the vector width; instruction sets; widths and fractional bits', 'Tests use one length per type and random values.',
     [F + 'fixed_point/algorithm.hpp', F + 'fixed_point/simd.hpp'], [('vector kernels and scalar tail', F + 'fixed_point/algorithm.hpp')], BV, 'All bit patterns within the lengths.')
prop('C23', 'Fixed-point SIMD vectors act lane by lane',
     'Loading, storing, broadcasting, adding, subtracting and multiplying fixed-point SIMD vectors act independently on every lane with the result of the scalar operation: exact and saturating sums and differences, products rounded to a neighbouring representable value and clamped.',
     ['inputs', 'configurations'], 'every lane bit pattern; vector widths and instruction sets', 'Tests broadcast a few equal values.',
     [F + 'fixed_point/simd.hpp'], [('batch operators', F + 'fixed_point/simd.hpp')], BV, 'All bit patterns.')
prop('C24', 'Fixed-point complex arithmetic matches the complex formulas',
     'Addition and subtraction of fixed-point complex numbers follow the complex formulas with saturating fixed-point operations; multiplication follows the complex product, each partial product scaled down by four, for every operand value.',
     ['inputs'], 'every operand bit pattern', 'Tests use one value and codify a wrong product.',
     [F + 'fixed_point/complex.hpp'], [('complex operators', F + 'fixed_point/complex.hpp')], BV, 'All bit patterns.')
prop('C25', 'Floating-point SIMD vectors act lane by lane, complex ones by complex formulas',
     'Loading, storing, broadcasting, adding, subtracting and multiplying real and complex SIMD vectors act independently on every lane: load followed by store is the identity, and each lane holds the result of the scalar (complex) operation on that lane.',
     ['inputs', 'configurations'], 'all lane values; every vector type of every instruction set', 'Tests broadcast a few equal values.',
     [F + 'simd/sse2.hpp', F + 'simd/avx.hpp', F + 'simd/avx512.hpp', F + 'complex/scalar_complex.hpp'], [('intrinsic wrappers', F + 'simd/avx.hpp')], POLY, NT)
prop('C26', 'Compressed storage keeps values to the nearest quantisation level',
     'Complex values with components in [-1,1] inserted into the compressed (8- and 16-bit) delay line read back as the nearest quantisation level, real and imaginary part independently, and inserting one segment changes no other. The compressed view presents every stored integer as its fraction of the largest one.',
     ['inputs', 'configurations'], 'all values in [-1,1]; positions, shapes and storage widths', 'Tests write a few values.',
     [F + 'container/compressed_accessor.hpp', F + 'convolution/compressed_fdl.hpp'], [('quantising accessor', F + 'container/compressed_accessor.hpp')], REAL + ' (with integer conversions); 8-bit views by ' + BV, NT)
prop('C27', 'Integer helpers return the exact mathematical value',
     'Power-of-two ceiling, binary logarithm, next transform order and size, integer power, rounded-up integer division (non-negative dividend, positive divisor, sum in range), absolute value and parity tests return the mathematically exact result for every argument whose result is representable, in every integer type.',
     ['inputs'], 'every 64-bit (or narrower) argument', 'Tests list a few values.',
     [F + 'bit/bit_ceil.hpp', F + 'bit/bit_log2.hpp', F + 'fft/order.hpp', F + 'math/ipow.hpp', F + 'math/idiv.hpp', F + 'math/is_even.hpp', F + 'math/is_odd.hpp'],
     [('bit twiddling', F + 'bit/bit_ceil.hpp'), ('next_order', F + 'fft/order.hpp')], BV, 'All arguments.')
prop('C28', 'Decibel and mel conversions follow their formulas and clamp correctly',
     'Gain to decibel conversion returns 20*log10 of the gain but never less than the given floor (-144 dB by default), and the floor itself for zero and negative gains; the estimating variant does so to within a few thousandths of a decibel. '
     'Hertz to mel and back follow the mel formula 2595*log10(1+f/700) and invert each other. The mel band frequencies are evenly spaced in mel from the lowest to the highest frequency, for any number of bands; a single band is the lowest frequency.',
     ['inputs', 'configurations'], 'all finite arguments', 'Tests sample a few values.',
     [F + 'unit/decibel.hpp', F + 'unit/mel.hpp'], [('conversion functions', F + 'unit/decibel.hpp')], REAL, NT)
prop('C29', 'Fast logarithms stay within their error bound',
     'The fast base-2 logarithm stays within 0.0005 of the true binary logarithm, and the fast base-10 logarithm within 0.0002 of the decimal one, for every positive normal argument.',
     ['inputs'], 'every positive normal float', 'Tests sample a grid with a loose margin.',
     [F + 'math/fast_math.hpp'], [('exponent extraction and polynomial', F + 'math/fast_math.hpp')], REAL + ', exponent and mantissa fields of the argument symbolic', NT)
prop('C30', 'Window functions follow their definitions and symmetry',
     'The rectangular, Hann and Hamming window functions return for every index the value of their (symmetric) definition for the given size of at least two, and filling or generating a window writes exactly the elements of the view with these values.',
     ['inputs', 'configurations'], 'all sizes and indices within bounds', 'Tests check single entries.',
     [F + 'math/windowing.hpp'], [('window functors', F + 'math/windowing.hpp')], POLY + '; any size by ' + REAL, NT)
prop('C31', 'FFT bin frequencies and A-weighting follow their formulas',
     'The frequency of every real-FFT bin equals index times sample rate over size, and the A-weighting curve equals its standard formula for every positive frequency.',
     ['inputs'], 'all frequencies and bins within bounds', 'Tests sample a few values.',
     [F + 'fft/rfftfreq.hpp', F + 'math/a_weighting.hpp'], [('formulas', F + 'math/a_weighting.hpp')], REAL, NT)
prop('C32', 'Complex number operations follow the complex field formulas',
     'The library complex type and the generic real, imaginary, conjugate, magnitude and polar helpers give the result of the complex formulas for every value: sums, differences, products and quotients with complex and real operands, compound assignments (also of a number with itself), component access and structured binding.',
     ['inputs', 'configurations'], 'all component values; element types', 'Tests use a few values.',
     [F + 'complex/scalar_complex.hpp', F + 'math/abs.hpp', F + 'math/conj.hpp', F + 'math/polar.hpp', F + 'math/real.hpp', F + 'math/imag.hpp'],
     [('operators', F + 'complex/scalar_complex.hpp')], POLY + '; ' + REAL, NT)
prop('C33', 'Plans report the sizes they were made for and refuse unsupported orders',
     'Every transform plan made from an order reports that order and the size radix to the power of the order, also after being copied or assigned, and advertises a maximum size that is the radix to the power of its maximum order. The default complex plan (and the real plan on top of it) refuses with an exception every order above the maximum. '
     'The arbitrary-length plan, the overlap processors and the one-shot convolver report the sizes they were constructed with; the transform size of an overlap processor is the smallest power of two that holds block plus filter size minus one, and the output length of the convolver is signal plus patch size minus one.',
     ['inputs', 'configurations'], 'every 64-bit order above the maximum; all supported orders and sizes within bounds; every plan and element type',
     'Tests read the sizes of a few plans and never construct an unsupported one.',
     [F + 'fft/fft.hpp', F + 'fft/reference/c2c_dit2_plan.hpp', F + 'fft/fallback/fallback_rfft_plan.hpp', F + 'fft/fallback/fallback_dft_plan.hpp', F + 'convolution/overlap_add.hpp', F + 'convolution/overlap_save.hpp', F + 'convolution/fft_convolver.hpp'],
     [('order check', F + 'fft/reference/c2c_dit2_plan.hpp'), ('size accessors', F + 'fft/order.hpp')], BV, 'Supported orders only up to the stated sizes; every refused order.')
prop('C34', 'Platform vendor backends match the portable implementation',
     'The FFT and linear-algebra backends built on vendor libraries return the same results as the portable implementation.',
     ['inputs', 'configurations'], 'all inputs', 'The vendor libraries are not available to the tests here.',
     [F + 'fft/backend/ipp.hpp', F + 'fft/backend/mkl.hpp', F + 'fft/backend/vdsp.hpp', F + 'algorithm/backend/cblas.hpp', F + 'simd/neon.hpp'], [('vendor calls', F + 'fft/backend/')],
     None, None, na='Intel IPP, MKL, Apple vDSP, CBLAS and ARM NEON headers and libraries are not installed, so this code does not compile here and there is no IR to encode; the vendor code itself is closed source.')
prop('C35', 'Command-line tools, plugin and Python bindings reproduce the library results',
     'The command-line tools, the audio plugin and the Python bindings process audio with exactly the results of the library functions they wrap.',
     ['inputs', 'configurations'], 'all inputs', 'No tests build them here.', ['extra/'], [('wrappers', 'extra/')],
     None, None, na='The extras need JUCE, pybind11 and other packages that are not installed; they do not compile here, so there is no IR to encode.')
