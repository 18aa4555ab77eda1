From 28fbf7b4b20ffe5da2c37a19bed5d5147a66d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:26 +0000
Subject: [PATCH 01/14] fix: a late repair must not bring back outdated sources

A reordered repair that references sources older than the current horizon lowered the horizon, so
that already delivered sources could be decoded (and delivered) a second time.
---
 netcode/detail/decoder.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..6e2b19e 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -56,10 +56,9 @@ decoder::operator()(decoder_repair&& incoming_r)
 {
   assert(not incoming_r.source_ids().empty());
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  if (m_last_id and *incoming_r.source_ids().begin() < *m_last_id)
   {
-    // It's a repair that provide outdated informations, drop it.
+    // It's a late repair: it references sources which are outdated and were thus forgotten, drop it.
     return;
   }
 
-- 
2.43.0


From 5a3d42cf51e93c835a936147e29e14f76a2118d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:51 +0000
Subject: [PATCH 02/14] fix: in-order decoder loses the source that completes
 its predecessors

When a received source makes an older one decodable, the frontier reaches the received source before
it is queued, and it was never given to the user.
---
 netcode/detail/decoder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 6e2b19e..68c0309 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -328,10 +328,12 @@ decoder::add_source_recursive(decoder_source&& src)
   const auto insertion = m_sources.emplace(src_id, std::move(src));
   assert(insertion.second && "source already added");
 
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
+  if (m_in_order and insertion.first->second.id() >= m_first_missing_source_in_order)
   {
-    // We can't send the current source as there are some older sources which have not been sent.
+    // We can't send the current source as there are some older sources which have not been sent,
+    // unless they were all decoded thanks to this source.
     m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+    flush_ordered_sources();
   }
 }
 
-- 
2.43.0


From 992bf67249fbfd58e1eafb0008beea792e88e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:51 +0000
Subject: [PATCH 03/14] fix: process all repairs that reference a decoded
 source

- A source decoded from an incoming repair was not removed from the other repairs referencing it.
- A repair with a single unknown source was not used when another repair referenced this source too;
  the repair then ended up without any source when this source was received.
- Recursive calls could erase the missing source the caller was iterating on (use after free).
- The full decoding was not attempted after a source was decoded from an incoming repair, so that
  there could be more repairs than missing sources afterwards.
---
 netcode/detail/decoder.cc | 73 +++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 68c0309..66a1fac 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -135,16 +135,13 @@ decoder::operator()(decoder_repair&& incoming_r)
     // Create missing source.
     auto src = create_source_from_repair(r);
 
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
-
-    // This repair is no longer needed.
+    // This repair is no longer needed. Other repairs may still reference the missing source, it's
+    // up to add_source_recursive() to remove it from them.
+    m_missing_sources.find(src.id())->second.erase(r_cit);
     m_repairs.erase(r_cit);
 
     // This newly decode source might trigger the decoding of several other sources.
     add_source_recursive(std::move(src));
-
-    return;
   }
 
   attempt_full_decoding();
@@ -268,7 +265,15 @@ decoder::add_source_recursive(decoder_source&& src)
     for (auto r_cit : search->second)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      if (r.source_ids().size() == 1)
+      {
+        // This repair encodes only this source, there's nothing left to learn from it.
+        m_repairs.erase(r_cit);
+      }
+      else
+      {
+        remove_source_from_repair(src, r);
+      }
     }
 
     // It's no longer a missing source.
@@ -277,49 +282,35 @@ decoder::add_source_recursive(decoder_source&& src)
 
   // Now, look for repairs that encodes only 1 source. When one is found, the corresponding
   // encoded source is decoded and the repair is erased.
-  for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
-      ; miss_cit != miss_end;)
+  for (auto r_cit = m_repairs.begin(); r_cit != m_repairs.end();)
   {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
-    {
-      // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
-      const auto& r = r_cit->second;
+    const auto& r = r_cit->second;
 
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
-      {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+    // Does this repair encode only 1 source?
+    if (r.source_ids().size() == 1)
+    {
+      // Check that this source wasn't decoded in the past.
+      assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
+      // Check that this source doesn't belong to the set of current sources.
+      assert(not m_sources.count(*r.source_ids().begin()));
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
+      // This repair references only 1 missing source. Thus, we can reconstruct the missing source.
+      auto decoded_src = create_source_from_repair(r);
 
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+      // We can erase this repair.
+      m_missing_sources.find(decoded_src.id())->second.erase(r_cit);
+      m_repairs.erase(r_cit);
 
-        // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+      // This newly decoded source might trigger the decoding of other sources.
+      add_source_recursive(std::move(decoded_src));
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+      // Other repairs might have been erased, start again.
+      r_cit = m_repairs.begin();
     }
     else
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
-      ++miss_cit;
+      // This repair encodes too much sources, try next one.
+      ++r_cit;
     }
   }
 
-- 
2.43.0


From 95e41b6c411043793f8a1f6441421c9f8dc0812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:05 +0000
Subject: [PATCH 04/14] fix: invert() must designate a line which depends on
 other lines

When a matrix is not invertible, the returned line was always the last one, which
could be independent from all others: the decoder would then drop a useful repair.
---
 netcode/detail/invert_matrix.cc | 59 ++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/invert_matrix.cc b/netcode/detail/invert_matrix.cc
index fc98d0f..4bb2b1d 100644
--- a/netcode/detail/invert_matrix.cc
+++ b/netcode/detail/invert_matrix.cc
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <utility> // swap
 
 #include "netcode/detail/invert_matrix.hh"
 
@@ -6,6 +7,62 @@ namespace ntc { namespace detail {
 
 /*------------------------------------------------------------------------------------------------*/
 
+/// @brief Find a row of a non-invertible matrix which is a linear combination of other rows.
+/// @param mat The matrix, already triangularized up to row @p row (excluded).
+/// @param inv The operations on rows performed so far on @p mat.
+/// @param row The first row for which there is no pivot in the column of same index.
+/// @return The index of the row in the original matrix, before any swap.
+static
+std::size_t
+dependent_row(galois_field& gf, square_matrix& mat, square_matrix& inv, std::size_t row)
+noexcept
+{
+  const auto dim = mat.dimension();
+
+  // Look for pivots in remaining columns.
+  for (auto col = row + 1; col < dim; ++col)
+  {
+    auto pivot = row;
+    for (; pivot < dim and mat[pivot * dim + col] == 0; ++pivot)
+    {
+    }
+
+    if (pivot == dim)
+    {
+      continue;
+    }
+
+    for (auto k = 0ul; k < dim; ++k)
+    {
+      std::swap(mat[row * dim + k], mat[pivot * dim + k]);
+      std::swap(inv[row * dim + k], inv[pivot * dim + k]);
+    }
+
+    const auto inverse = gf.invert(mat[row * dim + col]);
+    for (auto j = row + 1; j < dim; ++j)
+    {
+      const auto factor = gf.multiply(mat[j * dim + col], inverse);
+      for (auto k = 0ul; k < dim; ++k)
+      {
+        mat[j * dim + k] ^= gf.multiply(factor, mat[row * dim + k]);
+        inv[j * dim + k] ^= gf.multiply(factor, inv[row * dim + k]);
+      }
+    }
+
+    ++row;
+  }
+
+  // There are less pivots than rows: mat's row at 'row' is null. The same row of inv tells which
+  // original rows were combined to obtain it, all of them depend on the others.
+  auto res = dim - 1;
+  for (; inv[row * dim + res] == 0; --res)
+  {
+  }
+  return res;
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 boost::optional<std::size_t>
 invert(galois_field& gf, square_matrix& mat, square_matrix& inv)
 noexcept
@@ -40,7 +97,7 @@ noexcept
       if (j == rows)
       {
         // Failure, matrix is not invertible.
-        return {j - 1};
+        return {dependent_row(gf, mat, inv, i)};
       }
 
       const auto row_start2 = j * cols;
-- 
2.43.0


From 5a7262867946e8d04460f44abff576f78cbf09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:38 +0000
Subject: [PATCH 05/14] fix: enforce the window's limit when it is lowered

The oldest source was dropped only when the window's size was exactly the limit: lowering the
limit under the current size made the window grow forever.
---
 netcode/encoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..424bbf8 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -255,7 +255,8 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // The limit might have been lowered since the last source was added.
+    while (m_sources.size() >= m_window_size)
     {
       m_sources.pop_front();
     }
-- 
2.43.0


From 239cd3924575f506b8e2479f7123b0defd9e76a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:55 +0000
Subject: [PATCH 06/14] fix: don't write the symbol of a repair twice

The second copy was never read by read_repair().
---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..eb13943 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint16_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From 3ea16d0819db28210d2c04cdedd9a54379a4d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:13 +0000
Subject: [PATCH 07/14] fix: don't truncate large differences in lists of
 source identifiers

Differences greater than 65535 between two identifiers were truncated to 16 bits.
---
 netcode/detail/packetizer.hh | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index eb13943..772b1e2 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -253,7 +253,9 @@ private:
 
   /// @brief Serialize a list of source identifiers.
   ///
-  /// The list is compressed using a RLE encoding on adjacent differences.
+  /// The list is compressed using a RLE encoding on adjacent differences. Each pair is a run length
+  /// on 8 bits and a difference on 16 bits. A null run length introduces the upper 16 bits of the
+  /// difference of the next pair.
   void
   write(const source_id_list& ids)
   {
@@ -285,7 +287,13 @@ private:
         ++run_length;
         ++cit;
       }
-      m_rle_buffer.emplace_back(run_length, *cit);
+      if (*cit > std::numeric_limits<std::uint16_t>::max())
+      {
+        // This difference doesn't fit in 16 bits: put its upper bits in a pair with a null run
+        // length, just before the pair which contains its lower bits.
+        m_rle_buffer.emplace_back(std::uint8_t{0}, static_cast<std::uint16_t>(*cit >> 16));
+      }
+      m_rle_buffer.emplace_back(run_length, static_cast<std::uint16_t>(*cit));
       ++cit;
     }
 
@@ -327,15 +335,24 @@ private:
 
     // Reverse running length encoding on the fly.
     const auto nb_pairs = nb_elements - 1u; // Remove the first identifier.
+    auto upper_bits = std::uint32_t{0}; // Upper bits of the next difference.
     for (auto i = 0ul; i < nb_pairs; ++i)
     {
       const auto run_length = read<std::uint8_t>(data, max_len);
       const auto value = read<std::uint16_t>(data, max_len);
 
+      if (run_length == 0)
+      {
+        // A difference on more than 16 bits.
+        upper_bits = static_cast<std::uint32_t>(value) << 16;
+        continue;
+      }
+
       for (auto j = 0u; j < run_length; ++j)
       {
-        m_difference_buffer.push_back(value);
+        m_difference_buffer.push_back(upper_bits | value);
       }
+      upper_bits = 0;
     }
 
     // Revert to list of source identifiers.
-- 
2.43.0


From 3ad9e1f030775c359fd285dedaf7c6d8a93fa7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:34 +0000
Subject: [PATCH 08/14] fix: don't truncate the encoded size of repairs with a
 field of size 32

The product of a size by a coefficient of GF(2^32) needs 32 bits. It was truncated to 16 bits, which
can't be reverted: sources were rebuilt with a wrong size as soon as coefficients or sizes were not
very small.
---
 netcode/detail/decoder.cc      | 12 +++++-------
 netcode/detail/encoder.cc      |  4 +---
 netcode/detail/galois_field.hh | 15 ++++++++++-----
 netcode/detail/packetizer.hh   |  4 ++--
 netcode/detail/repair.hh       | 16 ++++++++--------
 5 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 66a1fac..98eae7d 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -160,7 +160,7 @@ noexcept
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
   // Reconstruct size.
-  const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
+  const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -392,8 +392,7 @@ noexcept
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
-  r.encoded_size()
-    = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
+  r.encoded_size() ^= m_gf.multiply_size(src.symbol_size(), coeff);
 
   // Remove symbol.
   m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
@@ -475,17 +474,16 @@ decoder::attempt_full_decoding()
     // First, decode the size of the source.
     const auto src_sz = [&,this]
     {
-      auto res = std::uint16_t{0};
+      auto res = std::uint32_t{0};
       for (auto repair_row = 0ul; repair_row < m_inv.dimension(); ++repair_row)
       {
         const auto coeff = m_inv(repair_row, src_col);
         if (coeff != 0)
         {
-          const auto tmp = m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
-          res = static_cast<std::uint16_t>(tmp) ^ res;
+          res ^= m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
         }
       }
-      return res;
+      return static_cast<std::uint16_t>(res);
     }();
 
     // Now, decode symbol.
diff --git a/netcode/detail/encoder.cc b/netcode/detail/encoder.cc
index be5f549..3bf2f46 100644
--- a/netcode/detail/encoder.cc
+++ b/netcode/detail/encoder.cc
@@ -57,9 +57,7 @@ encoder::operator()(encoder_repair& repair, source_list& sources)
     m_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), cit->size(), c);
 
     // Finally, add the user size.
-    // Cast is necessary to inhibit conversion warning as xor implicitly convert to a signed value.
-    repair.encoded_size()
-      = static_cast<std::uint16_t>(m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size());
+    repair.encoded_size() ^= m_gf.multiply_size(cit->size(), c);
   }
 }
 
diff --git a/netcode/detail/galois_field.hh b/netcode/detail/galois_field.hh
index 820e5e1..58bc3d0 100644
--- a/netcode/detail/galois_field.hh
+++ b/netcode/detail/galois_field.hh
@@ -93,8 +93,9 @@ public:
 
   /// @brief Multiply a size with a coefficient.
   /// @attention Make sure that the coefficient is generated with galois_field::coefficient.
-  std::uint16_t
-  multiply_size(std::uint16_t size, std::uint32_t coeff)
+  /// @note The result fits in 16 bits, except for a field of size 32.
+  std::uint32_t
+  multiply_size(std::uint32_t size, std::uint32_t coeff)
   noexcept
   {
     assert(  (((m_w == 4 or m_w == 8 or m_w == 16 ) and coeff < (1u << m_w)) or (m_w == 32))
@@ -108,14 +109,18 @@ public:
     if (m_w <= 8) // 4 or 8
     {
       __attribute__((aligned(16))) std::uint16_t res;
-      __attribute__((aligned(16))) std::uint16_t size_ = size;
+      __attribute__((aligned(16))) std::uint16_t size_ = static_cast<std::uint16_t>(size);
       multiply( reinterpret_cast<char*>(&size_), reinterpret_cast<char*>(&res)
               , sizeof(std::uint16_t), coeff);
       return res;
     }
-    else // w = 16 or 32
+    else if (m_w == 16)
+    {
+      return m_gf.multiply.w32(&m_gf, static_cast<std::uint16_t>(size), coeff);
+    }
+    else // w = 32
     {
-      return static_cast<std::uint16_t>(m_gf.multiply.w32(&m_gf, size, coeff));
+      return m_gf.multiply.w32(&m_gf, size, coeff);
     }
   }
 
diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 772b1e2..83bbf82 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -109,7 +109,7 @@ public:
     write(r.source_ids());
 
     // Write encoded size.
-    write<std::uint16_t>(r.encoded_size());
+    write<std::uint32_t>(r.encoded_size());
 
     // End of data.
     mark_end();
@@ -150,7 +150,7 @@ public:
     auto ids = read_ids(data, max_len);
 
     // Read encoded size.
-    const auto encoded_sz = read<std::uint16_t>(data, max_len);
+    const auto encoded_sz = read<std::uint32_t>(data, max_len);
 
     return std::make_pair( decoder_repair{id, encoded_sz, std::move(ids), std::move(p), symbol_size}
                          , reinterpret_cast<std::size_t>(data) - begin); // Number of read bytes.
diff --git a/netcode/detail/repair.hh b/netcode/detail/repair.hh
index 09bfec2..a470fdd 100644
--- a/netcode/detail/repair.hh
+++ b/netcode/detail/repair.hh
@@ -36,7 +36,7 @@ public:
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
   /// @note For tests
-  encoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  encoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , detail::zero_byte_buffer&& buffer)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -104,7 +104,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -112,7 +112,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -128,7 +128,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   detail::zero_byte_buffer m_buffer;
@@ -158,7 +158,7 @@ public:
   decoder_repair& operator=(decoder_repair&&) = default;
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
-  decoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  decoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , packet&& p, std::size_t symbol_size)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -216,7 +216,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -224,7 +224,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -248,7 +248,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   packet m_symbol_buffer;
-- 
2.43.0


From e9c0de4624579ddd6f111e6188aca13b385ecd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 09/14] fix: don't trust sizes and lists of sources found in
 repairs

A repair with an empty list of sources, a symbol smaller than those of the sources it references, or
a symbol which isn't a multiple of the field's word could crash the decoder or make it read and write
out of bounds. More repairs than missing sources led to a partially initialized matrix.
---
 netcode/detail/decoder.cc | 49 +++++++++++++++++++++++++++------------
 netcode/detail/decoder.hh |  8 +++++++
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 98eae7d..9ab345f 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -1,4 +1,4 @@
-#include <algorithm>  // all_of
+#include <algorithm>  // all_of, max, min
 #include <cassert>
 #include <vector>
 
@@ -54,7 +54,11 @@ decoder::operator()(decoder_source&& src)
 void
 decoder::operator()(decoder_repair&& incoming_r)
 {
-  assert(not incoming_r.source_ids().empty());
+  if (incoming_r.source_ids().empty())
+  {
+    // It can't come from an encoder, there's nothing to learn from it.
+    return;
+  }
 
   if (m_last_id and *incoming_r.source_ids().begin() < *m_last_id)
   {
@@ -163,10 +167,10 @@ noexcept
   const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
 
   // The source that will be reconstructed.
-  auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
+  auto src = decoder_source{src_id, packet(src_sz + packet::alignment, 0), src_sz};
 
-  // Reconstruct missing source.
-  m_gf.multiply(r.symbol(), src.symbol(), src_sz, inv);
+  // Reconstruct missing source. Make sure that only the symbol of the repair is read.
+  m_gf.multiply(r.symbol(), src.symbol(), region_size(src_sz, r.symbol_size()), inv);
 
   m_nb_decoded += 1;
 
@@ -382,20 +386,32 @@ noexcept
 
 /*------------------------------------------------------------------------------------------------*/
 
+std::size_t
+decoder::region_size(std::size_t lhs, std::size_t rhs)
+const noexcept
+{
+  // Regions are processed by words for fields of sizes 16 and 32.
+  const auto word_size = std::max(m_gf.size() / 8u, 1u);
+  const auto res = std::min(lhs, rhs);
+  return res - (res % word_size);
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 void
 decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
 noexcept
 {
   assert(r.source_ids().size() > 1 && "Repair encodes only one source");
-  assert(src.symbol_size() <= r.symbol_size());
 
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
   r.encoded_size() ^= m_gf.multiply_size(src.symbol_size(), coeff);
 
-  // Remove symbol.
-  m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
+  // Remove symbol. Make sure to stay in the symbol of the repair.
+  m_gf.multiply_add( src.symbol(), r.symbol(), region_size(src.symbol_size(), r.symbol_size())
+                   , coeff);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -414,14 +430,17 @@ decoder::attempt_full_decoding()
     return;
   }
 
-  assert(m_missing_sources.size() == m_repairs.size() && "More repairs than missing sources");
   assert(m_missing_sources.size() > 1 && "Trying to create a matrix for only one missing source.");
 
-  // Build coefficient matrix.
-  m_coefficients.resize(m_repairs.size());
+  // Build coefficient matrix. Repairs in excess, if any, are not used.
+  m_coefficients.resize(m_missing_sources.size());
   auto col = 0ul;
   for (const auto& r : m_repairs)
   {
+    if (col == m_coefficients.dimension())
+    {
+      break;
+    }
     auto row = 0ul;
     for (const auto& missing : m_missing_sources)
     {
@@ -497,7 +516,7 @@ decoder::attempt_full_decoding()
     auto coeff = 0u;
 
     // Find first non-zero coefficient.
-    for (; repair_row < repairs().size(); ++repair_row)
+    for (; repair_row < m_inv.dimension(); ++repair_row)
     {
       coeff = m_inv(repair_row, src_col);
       if (coeff != 0)
@@ -505,12 +524,12 @@ decoder::attempt_full_decoding()
         break;
       }
     }
-    assert(repair_row != m_repairs.size() && "No coefficients for missing source");
+    assert(repair_row != m_inv.dimension() && "No coefficients for missing source");
 
     // Repair's buffer might be smaller than the size of the source to decode, or it could be
     // the opposite situation. Thus, we need to make sure that we only read the right number of
     // bytes.
-    auto sz = std::min(src_sz, static_cast<std::uint16_t>(m_index[repair_row]->symbol_size()));
+    auto sz = region_size(src_sz, m_index[repair_row]->symbol_size());
     m_gf.multiply(m_index[repair_row]->symbol(), src.symbol(), sz, coeff);
 
     for (++repair_row; repair_row < m_inv.dimension(); ++repair_row)
@@ -518,7 +537,7 @@ decoder::attempt_full_decoding()
       coeff = m_inv(repair_row, src_col);
       if (coeff != 0)
       {
-        sz = std::min(src_sz, static_cast<std::uint16_t>(m_index[repair_row]->symbol_size()));
+        sz = region_size(src_sz, m_index[repair_row]->symbol_size());
         m_gf.multiply_add(m_index[repair_row]->symbol(), src.symbol(), sz, coeff);
       }
     }
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..01fc88d 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -131,6 +131,14 @@ private:
   remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
 
+  /// @brief Get the number of bytes which can be processed by the Galois field given the sizes of
+  /// two symbols.
+  ///
+  /// Those sizes come from the network, we can't assume that they're consistent.
+  std::size_t
+  region_size(std::size_t lhs, std::size_t rhs)
+  const noexcept;
+
   /// @brief Try to construct missing sources from the set of repairs.
   void
   attempt_full_decoding();
-- 
2.43.0


From 2ecdc0bbc44e30764e49e1d5de5d93aa9ed6dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 10/14] fix: an empty packet has no type

Its first byte was read out of bounds.
---
 netcode/detail/packet_type.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcode/detail/packet_type.hh b/netcode/detail/packet_type.hh
index 932691c..0ca4cf4 100644
--- a/netcode/detail/packet_type.hh
+++ b/netcode/detail/packet_type.hh
@@ -18,6 +18,11 @@ inline
 packet_type
 get_packet_type(const packet& p)
 {
+  if (p.empty())
+  {
+    throw packet_type_error{p};
+  }
+
   const auto ty = *reinterpret_cast<const std::uint8_t*>(p.data());
   switch (ty)
   {
-- 
2.43.0


From 941c7e975b6b902b8dc9888dd6835ada9ce6120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:22 +0000
Subject: [PATCH 11/14] fix: count sent packets on more than 16 bits

The counter wrapped when more than 65535 packets were sent between two acks: the loss rate used to
adapt the code rate was then wrong.
---
 netcode/encoder.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 424bbf8..a363ab1 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -303,8 +303,8 @@ private:
       {
         if (m_nb_sent_packets > 0)
         {
-          const auto loss_rate
-            = (m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>(m_nb_sent_packets);
+          const auto nb_sent = static_cast<double>(m_nb_sent_packets);
+          const auto loss_rate = (nb_sent - res.first.nb_packets()) / nb_sent;
           m_rate = rate_for_loss(loss_rate);
         }
         else
@@ -392,7 +392,7 @@ private:
   std::size_t m_nb_sent_sources;
 
   /// @brief The number of sent packets since last ack
-  std::uint16_t m_nb_sent_packets;
+  std::size_t m_nb_sent_packets;
 };
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 6b7a060491a3638599b1db1db91dab7afb5a37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:27 +0000
Subject: [PATCH 12/14] fix: error messages of the C interface

They were not null terminated, released with the wrong operator and could be released twice.
---
 netcode/c/detail/check_error.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index defe2ce..ab4448d 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -47,18 +47,19 @@ noexcept
   {
     error->type = ntc_unknown_error;
     const auto sz = std::strlen(e.what());
-    delete error->message;
-    error->message = new (std::nothrow) char[sz];
+    delete[] error->message;
+    error->message = new (std::nothrow) char[sz + 1];
     if (error->message)
     {
-      std::copy_n(e.what(), sz, error->message);
+      std::copy_n(e.what(), sz + 1 /* with terminating null character */, error->message);
     }
   }
 
   catch (...)
   {
     error->type = ntc_unknown_error;
-    delete error->message;
+    delete[] error->message;
+    error->message = nullptr;
   }
 
   // Return the default value of the type returned by fn when an error occurs.
-- 
2.43.0


From 83fd31d696bccfb91eadddd90cf04dcc208fd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:32 +0000
Subject: [PATCH 13/14] fix: don't let exceptions escape from constructors of
 the C interface

---
 netcode/c/data.cc    | 20 ++++++++++++++++----
 netcode/c/decoder.cc | 18 +++++++++++-------
 netcode/c/encoder.cc | 12 ++++++++----
 netcode/c/packet.cc  | 20 ++++++++++++++++----
 4 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/netcode/c/data.cc b/netcode/c/data.cc
index b10677f..29b5e18 100644
--- a/netcode/c/data.cc
+++ b/netcode/c/data.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/data.h"
 
@@ -9,7 +7,14 @@ ntc_data_t*
 ntc_new_data(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(size);
+  try
+  {
+    return new ntc_data_t(size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +23,14 @@ ntc_data_t*
 ntc_new_data_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(src, src + size);
+  try
+  {
+    return new ntc_data_t(src, src + size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/decoder.cc b/netcode/c/decoder.cc
index e07178a..3dff8e4 100644
--- a/netcode/c/decoder.cc
+++ b/netcode/c/decoder.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/decoder.h"
 #include "netcode/errors.hh"
@@ -11,11 +9,17 @@ ntc_new_decoder( uint8_t galois_field_size, ntc_ordering_type order
                , ntc_packet_handler packet_handler, ntc_data_handler data_handler)
 noexcept
 {
-  return new (std::nothrow) ntc_decoder_t{ galois_field_size
-                                         , order == ntc_in_order_yes ? ntc::in_order::yes
-                                                                     : ntc::in_order::no
-                                         , ntc::detail::c_packet_handler{packet_handler}
-                                         , ntc::detail::c_data_handler{data_handler}};
+  try
+  {
+    return new ntc_decoder_t{ galois_field_size
+                            , order == ntc_in_order_yes ? ntc::in_order::yes : ntc::in_order::no
+                            , ntc::detail::c_packet_handler{packet_handler}
+                            , ntc::detail::c_data_handler{data_handler}};
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/encoder.cc b/netcode/c/encoder.cc
index 74c718f..05e33b5 100644
--- a/netcode/c/encoder.cc
+++ b/netcode/c/encoder.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/encoder.h"
 
@@ -9,8 +7,14 @@ ntc_encoder_t*
 ntc_new_encoder(uint8_t galois_field_size, ntc_packet_handler handler)
 noexcept
 {
-  return new (std::nothrow) ntc_encoder_t{ galois_field_size
-                                         , ntc::detail::c_packet_handler{handler}};
+  try
+  {
+    return new ntc_encoder_t{galois_field_size, ntc::detail::c_packet_handler{handler}};
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/packet.cc b/netcode/c/packet.cc
index babdcf7..4a37f3b 100644
--- a/netcode/c/packet.cc
+++ b/netcode/c/packet.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/packet.h"
 
@@ -9,7 +7,14 @@ ntc_packet_t*
 ntc_new_packet(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(size);
+  try
+  {
+    return new ntc_packet_t(size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +23,14 @@ ntc_packet_t*
 ntc_new_packet_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(src, src + size);
+  try
+  {
+    return new ntc_packet_t(src, src + size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From ef7bb3f0e2361f96afbd456cc48edd240b8f4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:37 +0000
Subject: [PATCH 14/14] fix: read dumped packets

Packets were shifted by one byte and it wasn't possible to read several packets in a row.
---
 netcode/detail/serialize_packet.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 2c89092..c265841 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -29,17 +29,14 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    std::istreambuf_iterator<char> isb(is);
     auto sz = std::uint16_t{};
-    std::copy_n(isb, 2, reinterpret_cast<char*>(&sz));
-    ++isb;
+    is.read(reinterpret_cast<char*>(&sz), sizeof(sz));
 
     const auto sz_native = boost::endian::big_to_native(sz);
 
     p.m_buffer.resize(sz_native);
-    std::copy_n(isb, sz_native, p.m_buffer.begin());
+    is.read(p.m_buffer.data(), sz_native);
 
-    ++isb;
     return p;
   }
 };
-- 
2.43.0

