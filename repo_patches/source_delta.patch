From 9f933a96c0f189098b3efc28d3be1987fb7d6687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:47 +0000
Subject: [PATCH 01/19] fix: stockham radix-2 plans compute the transform of
 the requested direction

The twiddle tables of c2c_stockham_dif2r_plan and c2c_stockham_dif2i_plan were
swapped, so forward returned the backward transform and vice versa.
---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From 44737cbf67a8a4c55c1366a15cc08c5aa06e7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:47 +0000
Subject: [PATCH 02/19] fix: radix-4 plans compute the DFT

The butterflies subtract the rotated difference, so the rotation has to be +i
for the forward and -i for the backward transform. With the opposite sign the
rows 1 and 3 of every radix-4 butterfly were exchanged, and the result was not
the DFT in either direction.
---
 src/neo/fft/reference/c2c_dit4_plan.hpp          | 2 +-
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..ec597a0 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -35,7 +35,7 @@ struct c2c_radix4_plan
     {
         using Float = value_type_t<Complex>;
 
-        auto const sign = dir == direction::forward ? Float(-1.0) : Float(1.0);
+        auto const sign = dir == direction::forward ? Float(1.0) : Float(-1.0);
         auto const w    = dir == direction::forward ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent)
                                                     : stdex::submdspan(_w.to_mdspan(), 1, stdex::full_extent);
 
diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..46ce682 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -40,7 +40,7 @@ struct c2c_stockham_dit4_plan
         auto const t = static_cast<size_t>(_order);
         auto const y = _work.to_mdspan();
 
-        auto const sign = dir == direction::forward ? Float(-1) : Float(+1);
+        auto const sign = dir == direction::forward ? Float(+1) : Float(-1);
         auto const i    = Complex{Float(0), sign};
         // auto const w    = dir == direction::forward
         //                     ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent, stdex::full_extent)
-- 
2.43.0


From bf7a570479c2dd8841267dd524911f7bf87c2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:47 +0000
Subject: [PATCH 03/19] fix: complex FFT plans of order 0 and dit2 v4 of order
 1

A plan of size 1 is the identity: the radix-2 kernels read and wrote one
element past the end and the radix-4 plans looped on a wrapped exponent.
c2c_dit2_v4 applied stage 0 twice for two points.
---
 src/neo/fft/reference/c2c_dit2_plan.hpp   | 4 ++++
 src/neo/fft/reference/c2c_dit4_plan.hpp   | 6 +++++-
 src/neo/fft/reference/kernel/c2c_dit2.hpp | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit2_plan.hpp b/src/neo/fft/reference/c2c_dit2_plan.hpp
index 8833ec4..673f0ef 100644
--- a/src/neo/fft/reference/c2c_dit2_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit2_plan.hpp
@@ -85,6 +85,10 @@ auto c2c_dit2_plan<Complex, Kernel>::operator()(Vec x, direction dir) noexcept -
 {
     assert(std::cmp_equal(x.size(), _size));
 
+    if (_size < 2) {
+        return;
+    }
+
     _reorder(x);
 
     if (auto const kernel = Kernel{}; dir == direction::forward) {
diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index ec597a0..442f8fd 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -35,6 +35,10 @@ struct c2c_radix4_plan
     {
         using Float = value_type_t<Complex>;
 
+        if (_order == 0) {
+            return;
+        }
+
         auto const sign = dir == direction::forward ? Float(1.0) : Float(-1.0);
         auto const w    = dir == direction::forward ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent)
                                                     : stdex::submdspan(_w.to_mdspan(), 1, stdex::full_extent);
@@ -189,7 +193,7 @@ private:
 
     [[nodiscard]] static auto make_twiddle_lut(size_type n)
     {
-        auto kmax  = 3UL * (n / 4UL - 1UL);
+        auto kmax  = n < 4UL ? 0UL : 3UL * (n / 4UL - 1UL);
         auto w     = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n};
         auto w_fwd = stdex::submdspan(w.to_mdspan(), 0, stdex::full_extent);
         auto w_bwd = stdex::submdspan(w.to_mdspan(), 1, stdex::full_extent);
diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..6ed7f17 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -214,7 +214,7 @@ struct c2c_dit2_v4
             }
         }
 
-        {
+        if (order > 1) {
             // stage = order - 1
             auto const stage_length = size / 2UL;
 
-- 
2.43.0


From 3d51d1cc71251d238c02189df939ac1ea9ee819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:07 +0000
Subject: [PATCH 04/19] fix: experimental::rfft_plan computes the spectrum of
 the signal

The split step was written for a transform with kernel exp(+i...), the complex
plan uses exp(-i...): the twiddles have to be conjugated and the middle bin
negated. Only the round trip was right before.
---
 src/neo/fft/experimental/rfft.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..7f3b5e2 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,11 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        if (n >= 4) {
+            // bin n/4 of the half-length transform
+            x[n / 2 + 1] = -x[n / 2 + 1];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From d91705a2c38844c8107c0a53bed153516f793811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:07 +0000
Subject: [PATCH 05/19] fix: split and experimental FFT of a single point

Stage 0 accessed the element after the end for a plan of order 0 (and, through
it, experimental::rfft_plan of order 1).
---
 src/neo/fft/experimental/rfft.hpp                | 2 +-
 src/neo/fft/fallback/fallback_split_fft_plan.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index 7f3b5e2..e6068a5 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -33,7 +33,7 @@ struct c2c_kernel
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..1c83b10 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -56,7 +56,7 @@ private:
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-        for (auto k{0}; k < static_cast<int>(size()); k += stride) {
+        for (auto k{0}; k + stage_length < static_cast<int>(size()); k += stride) {
             auto const i1 = k;
             auto const i2 = k + stage_length;
 
-- 
2.43.0


From eeec7d55f7c85b537be8aa10cfafd8202a40e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:07 +0000
Subject: [PATCH 06/19] fix: number of STFT frames for signals shorter than one
 hop

The unsigned subtraction wrapped for signals shorter than frame_size -
overlap_size, e.g. an impulse response shorter than the partition size. The
count is unchanged for all longer signals.
---
 src/neo/fft/stft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/stft.hpp b/src/neo/fft/stft.hpp
index c017577..5a5168f 100644
--- a/src/neo/fft/stft.hpp
+++ b/src/neo/fft/stft.hpp
@@ -21,7 +21,7 @@ namespace detail {
 [[nodiscard]] constexpr auto
 num_sftf_frames(std::size_t signal_size, std::size_t frame_size, std::size_t overlap_size) noexcept
 {
-    return idiv(signal_size - frame_size + overlap_size, frame_size - overlap_size) + 1;
+    return idiv(signal_size, frame_size - overlap_size);
 }
 
 }  // namespace detail
-- 
2.43.0


From 81797f6520caa9de509ba63a7a9c32b7ea497db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:07 +0000
Subject: [PATCH 07/19] fix: DCT of a single point

The reordering loop does not run for one sample, the input was ignored.
---
 src/neo/fft/dct.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neo/fft/dct.hpp b/src/neo/fft/dct.hpp
index 728ca98..35c54d2 100644
--- a/src/neo/fft/dct.hpp
+++ b/src/neo/fft/dct.hpp
@@ -40,6 +40,7 @@ struct fallback_dct2_plan
         auto const buf = _buffer.to_mdspan();
         assert(len == size());
 
+        buf[0] = x[0];
         for (auto i{0U}; i < len / 2U; ++i) {
             auto const src = i * 2U;
             auto const top = len - i - 1;
-- 
2.43.0


From c0002eb9c59b583af30f51eca8371d66c6898209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:59 +0000
Subject: [PATCH 08/19] fix: overlap_add for any block and filter size

---
 src/neo/convolution/overlap_add.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..66e8f82 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -47,7 +47,7 @@ private:
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
     stdex::mdarray<complex_type, stdex::dextents<size_t, 1>> _spectrum{_rfft.size() / 2 + 1};
-    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_block_size};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size() - _block_size};
 };
 
 template<complex Complex>
@@ -81,7 +81,8 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
+    auto const head     = stdex::submdspan(window, std::tuple{0, transform_size() - block_size()});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -99,8 +100,11 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     irfft(_rfft, spectrum, window);
     scale(1.0F / static_cast<real_type>(_rfft.size()), window);
 
+    // Add the tails of the previous blocks
+    add(head, overlap, head);
+
     // Copy to output
-    add(signal, overlap, block);
+    copy(signal, block);
 
     // Save overlap for next iteration
     copy(padding, overlap);
-- 
2.43.0


From 6d83f920b69195945d2e406b93eb168fa7510334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:59 +0000
Subject: [PATCH 09/19] fix: overlap_save for any block and filter size

---
 src/neo/convolution/overlap_save.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..9f839d1 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -36,15 +36,8 @@ struct overlap_save
 private:
     auto slide_window_left(auto window) -> void
     {
-        auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
-        for (auto i{0}; i < num_steps - 1; ++i) {
-            auto const dest_idx = i * step;
-            auto const src_idx  = dest_idx + step;
-
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
-            copy(src_block, dest_block);
+        for (auto i = size_type(0); i + block_size() < window.extent(0); ++i) {
+            window[i] = window[i + block_size()];
         }
     }
 
-- 
2.43.0


From bd107cad0529daffdf9f51722f7307fa82d500e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:59 +0000
Subject: [PATCH 10/19] fix: uniform partitioned convolvers with a block size
 of one

---
 src/neo/convolution/uniform_partitioned_convolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neo/convolution/uniform_partitioned_convolver.hpp b/src/neo/convolution/uniform_partitioned_convolver.hpp
index 00783ab..8e2b44b 100644
--- a/src/neo/convolution/uniform_partitioned_convolver.hpp
+++ b/src/neo/convolution/uniform_partitioned_convolver.hpp
@@ -37,7 +37,8 @@ private:
 template<typename Overlap, typename Fdl, typename Filter>
 auto uniform_partitioned_convolver<Overlap, Fdl, Filter>::filter(in_matrix auto filter, auto... args) -> void
 {
-    _overlap     = Overlap{filter.extent(1) - 1, filter.extent(1) - 1};
+    // Same transform size as the filter: 2 * block_size
+    _overlap     = Overlap{filter.extent(1) - 1, filter.extent(1)};
     _indexer     = fdl_index<size_t>{filter.extent(0)};
     _fdl         = Fdl{filter.extents()};
     _accumulator = accumulator_type{filter.extent(1)};
-- 
2.43.0


From 76cc1165fcb623133bb92d09756c6ab3478c9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:59 +0000
Subject: [PATCH 11/19] fix: overlap_add_convolver keeps the input of a partial
 block

---
 src/neo/convolution/overlap_add_convolver.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..c51818d 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -40,6 +40,7 @@ private:
 
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _input{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
@@ -59,6 +60,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
+    _input          = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
@@ -76,6 +78,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto const num_samples = inout.extent(0);
     auto num_processed     = size_type(0);
 
+    auto input           = _input.to_mdspan();
     auto real_window     = _real_window.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
@@ -87,9 +90,10 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
         auto const num_to_process  = std::min(num_samples - num_processed, _block_size - _input_pos);
 
         auto const sub_inout  = stdex::submdspan(inout, std::tuple{num_processed, num_processed + num_to_process});
+        auto const sub_input  = stdex::submdspan(input, std::tuple{_input_pos, _input_pos + num_to_process});
         auto const sub_window = stdex::submdspan(real_window, std::tuple{_input_pos, _input_pos + num_to_process});
-        copy(sub_inout, sub_window);
-        rfft(_rfft, real_window, complex_window);
+        copy(sub_inout, sub_input);
+        rfft(_rfft, input, complex_window);
 
         _fdl.insert(complex_window, _current_segment);
 
@@ -126,7 +130,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
                 stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
-            fill(real_window, real_type{});
+            fill(input, real_type{});
 
             _current_segment = (_current_segment > 0) ? (_current_segment - 1) : (_num_segments - 1);
         }
-- 
2.43.0


From 864ddf8847621f41f4e67710328b7365a71c250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:59 +0000
Subject: [PATCH 12/19] fix: csr_matrix::insert replaces an existing entry

---
 src/neo/container/csr_matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index c267467..09ebd76 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -147,6 +147,11 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
         idx++;
     }
 
+    if (idx < _row_indices[row + 1] && _colum_indices[idx] == col) {
+        _values[idx] = value;
+        return;
+    }
+
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
     _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
-- 
2.43.0


From 5fe09df49ce6a90452afe0feb5bc77d3148f6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:59 +0000
Subject: [PATCH 13/19] fix: csr multiply_add writes the whole output row

---
 src/neo/algorithm/multiply_add.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/neo/algorithm/multiply_add.hpp b/src/neo/algorithm/multiply_add.hpp
index 6bd65a6..999426b 100644
--- a/src/neo/algorithm/multiply_add.hpp
+++ b/src/neo/algorithm/multiply_add.hpp
@@ -317,9 +317,24 @@ auto multiply_add(
     auto const& rcols = y.column_container();
     auto const& rvals = y.value_container();
 
-    for (auto i{rrows[y_row]}; i < rrows[y_row + 1]; ++i) {
-        auto col = rcols[i];
-        out[col] = x[col] * rvals[i] + z[col];
+    if constexpr (requires { z.data_handle() == out.data_handle(); }) {
+        if (z.data_handle() == out.data_handle()) {
+            for (auto i{rrows[y_row]}; i < rrows[y_row + 1]; ++i) {
+                auto col = rcols[i];
+                out[col] = x[col] * rvals[i] + z[col];
+            }
+            return;
+        }
+    }
+
+    auto i = rrows[y_row];
+    for (decltype(x.extent(0)) col{0}; col < x.extent(0); ++col) {
+        if (i < rrows[y_row + 1] and std::cmp_equal(rcols[i], col)) {
+            out[col] = x[col] * rvals[i] + z[col];
+            ++i;
+        } else {
+            out[col] = z[col];
+        }
     }
 }
 
-- 
2.43.0


From 102320d354348c15915f50a0fd0de593d731debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:59 +0000
Subject: [PATCH 14/19] fix: copy from split_complex compiles

---
 src/neo/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/algorithm/copy.hpp b/src/neo/algorithm/copy.hpp
index b431dc1..c1b9086 100644
--- a/src/neo/algorithm/copy.hpp
+++ b/src/neo/algorithm/copy.hpp
@@ -54,7 +54,7 @@ constexpr auto copy(split_complex<InVec> in, OutVec out) noexcept -> void
 
     using Complex = value_type_t<OutVec>;
 
-    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.extent(0)); ++i) {
+    for (auto i = std::size_t(0); i < static_cast<std::size_t>(out.extent(0)); ++i) {
         out[i] = Complex{in.real[i], in.imag[i]};
     }
 }
-- 
2.43.0


From a46118b61895778c8b088d447038d88122258a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:14 +0000
Subject: [PATCH 15/19] fix: overlap_add_convolver restarts its delay line with
 a new filter

---
 src/neo/convolution/overlap_add_convolver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index c51818d..f9b42c5 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -58,6 +58,9 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
     _block_size   = f.extent(1) - 1;
     _num_segments = f.extent(0);
 
+    _input_pos       = 0;
+    _current_segment = 0;
+
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
     _input          = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
-- 
2.43.0


From a4620f2cb167c30285a77cf81298eff1f88c8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:48 +0000
Subject: [PATCH 16/19] fix: conversion of large values to fixed point
 saturates

The product was converted to std::int32_t before it was clamped, which is
undefined (and in practice returned the smallest value) for large inputs.
---
 src/neo/fixed_point/fixed_point.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 8103073..7e600a8 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -20,6 +20,12 @@ constexpr auto saturate(std::int32_t x) -> IntType
     return static_cast<IntType>(std::clamp(x, min_v, max_v));
 }
 
+/// Clamps to the floats that can be converted to std::int32_t
+constexpr auto saturate_int32(float x) -> std::int32_t
+{
+    return static_cast<std::int32_t>(std::clamp(x, -2147483648.0F, 2147483520.0F));
+}
+
 }  // namespace detail
 
 struct underlying_value_t
@@ -44,7 +50,7 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<float>(val) * scale))}
+        : _value{detail::saturate<storage_type>(detail::saturate_int32(static_cast<float>(val) * scale))}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0


From a51b53e1e8d155c4144c34674f1a8d444dfc55a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:22 +0000
Subject: [PATCH 17/19] fix: SIMD products of fixed point numbers keep their
 sign

The products were shifted logically, a negative product became the largest
positive value.
---
 src/neo/fixed_point/simd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index c04a7b4..ed5299c 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -44,12 +44,12 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
     auto const lowLeft    = _mm_cvtepi8_epi16(lhs);
     auto const lowRight   = _mm_cvtepi8_epi16(rhs);
     auto const lowProduct = _mm_mullo_epi16(lowLeft, lowRight);
-    auto const lowShifted = _mm_srli_epi16(lowProduct, FractionalBits);
+    auto const lowShifted = _mm_srai_epi16(lowProduct, FractionalBits);
 
     auto const highLeft    = _mm_cvtepi8_epi16(_mm_srli_si128(lhs, 8));
     auto const highRight   = _mm_cvtepi8_epi16(_mm_srli_si128(rhs, 8));
     auto const highProduct = _mm_mullo_epi16(highLeft, highRight);
-    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);
+    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);
 
     return _mm_packs_epi16(lowShifted, highShifted);
 };
@@ -62,12 +62,12 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
         auto const low_product = _mm_mullo_epi32(low_left, low_right);
-        auto const low_shifted = _mm_srli_epi32(low_product, FractionalBits);
+        auto const low_shifted = _mm_srai_epi32(low_product, FractionalBits);
 
         auto const high_left    = _mm_cvtepi16_epi32(_mm_srli_si128(lhs, 8));
         auto const high_right   = _mm_cvtepi16_epi32(_mm_srli_si128(rhs, 8));
         auto const high_product = _mm_mullo_epi32(high_left, high_right);
-        auto const high_shifted = _mm_srli_epi32(high_product, FractionalBits);
+        auto const high_shifted = _mm_srai_epi32(high_product, FractionalBits);
 
         return _mm_packs_epi32(low_shifted, high_shifted);
     }
-- 
2.43.0


From 6fd6795f2220d6824488c9b09e045d0fb4c60c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:41 +0000
Subject: [PATCH 18/19] fix: SIMD product of minus one with minus one saturates

---
 src/neo/fixed_point/simd.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index ed5299c..91df977 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -19,6 +19,8 @@
 #endif
 
 #include <cassert>
+#include <cstdint>
+#include <limits>
 
 namespace neo {
 
@@ -57,7 +59,10 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product that wraps
+        auto const product = _mm_mulhrs_epi16(lhs, rhs);
+        auto const wrapped = _mm_set1_epi16(std::numeric_limits<std::int16_t>::min());
+        return _mm_xor_si128(product, _mm_cmpeq_epi16(product, wrapped));
     } else {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
@@ -79,7 +84,10 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm256_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product that wraps
+        auto const product = _mm256_mulhrs_epi16(lhs, rhs);
+        auto const wrapped = _mm256_set1_epi16(std::numeric_limits<std::int16_t>::min());
+        return _mm256_xor_si256(product, _mm256_cmpeq_epi16(product, wrapped));
     } else {
         assert(false);
     }
@@ -92,7 +100,11 @@ inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx512_s16 = [](__m512i lhs, __m512i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm512_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product that wraps
+        auto const product = _mm512_mulhrs_epi16(lhs, rhs);
+        auto const wrapped = _mm512_set1_epi16(std::numeric_limits<std::int16_t>::min());
+        auto const maximum = _mm512_set1_epi16(std::numeric_limits<std::int16_t>::max());
+        return _mm512_mask_mov_epi16(product, _mm512_cmpeq_epi16_mask(product, wrapped), maximum);
     } else {
         assert(false);
     }
-- 
2.43.0


From a2ca41dcf1009090541ef04ba41aa55f481b3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:33 +0000
Subject: [PATCH 19/19] fix: normalize_impulse: do not let a silent channel
 limit the gain of the others

---
 src/neo/convolution/normalize_impulse.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/neo/convolution/normalize_impulse.hpp b/src/neo/convolution/normalize_impulse.hpp
index cf5c35e..8114b6e 100644
--- a/src/neo/convolution/normalize_impulse.hpp
+++ b/src/neo/convolution/normalize_impulse.hpp
@@ -12,23 +12,27 @@ template<inout_object InOutObj>
     requires std::floating_point<value_type_t<InOutObj>>
 auto normalize_impulse(InOutObj obj) noexcept -> void
 {
+    using Float = value_type_t<InOutObj>;
     using Index = typename InOutObj::index_type;
 
     if constexpr (InOutObj::rank() == 1) {
         normalize_energy(obj);
     } else {
-        if (obj.extent(0) < 1) {
-            return;
+        // A silent channel has no energy to normalize and must not limit the gain of the others.
+        auto max_energy = Float(0);
+        for (Index ch{0}; ch < obj.extent(0); ++ch) {
+            auto energy = Float(0);
+            for (Index i{0}; i < obj.extent(1); ++i) {
+                energy += obj(ch, i) * obj(ch, i);
+            }
+            max_energy = std::max(max_energy, energy);
         }
 
-        auto channel0 = stdex::submdspan(obj, 0, stdex::full_extent);
-        auto factor   = normalize_energy_factor(channel0);
-        for (Index ch{1}; ch < obj.extent(0); ++ch) {
-            auto channel = stdex::submdspan(obj, ch, stdex::full_extent);
-            factor       = std::min(factor, normalize_energy_factor(channel));
+        if (float_equality::exact(max_energy, Float(0))) {
+            return;
         }
 
-        scale(factor, obj);
+        scale(Float(1) / std::sqrt(max_energy), obj);
     }
 }
 
-- 
2.43.0

