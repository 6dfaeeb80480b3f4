From 45e3f459d4ab2be50dd97fbe0d7076bf9930bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:07 +0000
Subject: [PATCH 01/40] fix: skip blocks removed by a cut when an edge is cut
 without split or reverse

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f0b8117..6e8d6a8 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -520,7 +520,7 @@ namespace TAT {
       using MapFromTransposeToSourceDestination = NormalMapFromTransposeToSourceDestination;
 #endif
       auto data_before_transpose_to_source = MapFromTransposeToSourceDestination();
-      if (!split_map.empty() || (is_fermi && !reversed_name.empty())) {
+      if (!split_map.empty() || (is_fermi && !reversed_name.empty()) || !edge_and_symmetries_to_cut_before_all.empty()) {
          // 需要使用reversed前的symmetry，所以
          // 1. 上面判断了是否reversed为空，不然else中的edge不正确 2.下面使用edge_after_split而不是edge_before_transpose
          for (auto& [symmetries_before_transpose, size] : initialize_block_symmetries_with_check(edge_after_split)) {
-- 
2.43.0


From aed64f5f34378144cfee7b7922d5454c76507446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:08 +0000
Subject: [PATCH 02/40] fix: compare the first name too before treating an edge
 operation as a no-op

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 6e8d6a8..f42a85d 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -34,7 +34,7 @@ namespace TAT {
       if (size1 != size2) {
          return false;
       }
-      for (auto i = 1; i < size1; i++) {
+      for (auto i = 0; i < size1; i++) {
          if (vector1[i] != vector2[i]) {
             return false;
          }
-- 
2.43.0


From 4e86d3df86a102ef84dbd70d301df151e9ad2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:08 +0000
Subject: [PATCH 03/40] fix: give merged edges without a defined fermi arrow a
 deterministic arrow

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f42a85d..3f0ef2a 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -399,7 +399,7 @@ namespace TAT {
                end_of_merge++;
             }
             // arrow begin
-            Arrow arrow;
+            Arrow arrow = false;
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
-- 
2.43.0


From 9c5acce1a7fea3e05cbc116c0cc904d381beb959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 04/40] fix: treat blocks missing from the source of a split as
 zero instead of failing

---
 include/TAT/edge_operator.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 3f0ef2a..8d333f1 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -674,6 +674,12 @@ namespace TAT {
          // leadings_of_destination[after_merge] -> leadings_after_transpose[at_transpose]
          const auto& [source_symmetries, source_offsets] = source_symmetries_and_offsets;
 
+         // split出的symmetry可能对应于一个不存在的分块, 这时结果中的分块保持为零
+         const auto source_iterator = core->blocks.find(source_symmetries);
+         if (source_iterator == core->blocks.end()) {
+            continue;
+         }
+
          auto symmetries_after_transpose = VectorSymmetryOfTensor(rank_at_transpose);
          auto dimensions_before_transpose = pmr::vector<Size>(rank_at_transpose);
          auto dimensions_after_transpose = pmr::vector<Size>(rank_at_transpose);
@@ -691,7 +697,7 @@ namespace TAT {
          // 已经获得四个symmetry, 两个offset, 两个dimension
          // 现在获得leadings和开始点
 
-         const auto& source_block = core->blocks.at(source_symmetries);
+         const auto& source_block = source_iterator->second;
          auto& destination_block = result.core->blocks.at(destination_symmetries);
 
          Size total_source_offset = 0;
-- 
2.43.0


From 9243ceabd1ca5c011035b4a64552eb6677828362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:08 +0000
Subject: [PATCH 05/40] fix: trace pairs of symmetric edges one by one and
 accept missing sectors

---
 include/TAT/trace.hpp | 47 ++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index f71b71c..a876bb1 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -31,6 +31,18 @@ namespace TAT {
       auto timer_guard = trace_guard();
       auto pmr_guard = scope_resource<>();
       constexpr bool is_fermi = is_fermi_symmetry_v<Symmetry>;
+      if constexpr (!std::is_same_v<Symmetry, NoSymmetry>) {
+         if (trace_names.size() > 1) {
+            // 合并后的两个边中, 相反的对称性内部的排列顺序未必一致, 所以逐对trace
+            auto result = *this;
+            for (const auto& name_pair : trace_names) {
+               auto single_pair = SetNameAndName();
+               single_pair.insert(name_pair);
+               result = result.trace(single_pair);
+            }
+            return result;
+         }
+      }
       auto rank = names.size();
       auto trace_rank = trace_names.size();
       auto free_rank = rank - 2 * trace_rank;
@@ -112,20 +124,27 @@ namespace TAT {
             std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}});
       // Trace_1和Trace_2一起merge, 而他们相连, 所以要有一个有效, Trace_3等一会会翻转回来, 所以没事
       auto traced_tensor = Tensor<ScalarType, Symmetry, Name>({InternalName<Name>::Trace_3}, {merged_tensor.core->edges[2]}).zero();
-      auto& destination_block = traced_tensor.core->blocks.begin()->second;
-      // 应该只有一个边, 所以也只有一个block
-      const Size line_size = destination_block.size();
-
-      for (const auto& [symmetry_1, dimension] : merged_tensor.core->edges[0].map) {
-         // 而source的形状应该是多个分块对角矩阵, 每个元素是一个向量, 我只需要把正对角的向量们求和
-         auto symmetry_2 = -symmetry_1;
-         auto source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
-         auto dimension_plus_one = dimension + 1;
-         for (Size i = 0; i < dimension; i++) {
-            const ScalarType* __restrict source_data = source_block.data() + dimension_plus_one * i * line_size;
-            ScalarType* __restrict destination_data = destination_block.data();
-            for (Size j = 0; j < line_size; j++) {
-               destination_data[j] += source_data[j];
+      // 应该只有一个边, 所以最多只有一个block, 自由脚无法组成零对称性时则没有block
+      for (auto& [_, destination_block] : traced_tensor.core->blocks) {
+         const Size line_size = destination_block.size();
+         for (const auto& [symmetry_1, dimension] : merged_tensor.core->edges[0].map) {
+            // 而source的形状应该是多个分块对角矩阵, 每个元素是一个向量, 我只需要把正对角的向量们求和
+            auto symmetry_2 = -symmetry_1;
+            auto found = merged_tensor.core->blocks.find({symmetry_1, symmetry_2, Symmetry()});
+            if (found == merged_tensor.core->blocks.end()) {
+               continue;
+            }
+            if (merged_tensor.core->edges[1].map.at(symmetry_2) != dimension) {
+               TAT_error("Different Dimension to Trace");
+            }
+            const auto& source_block = found->second;
+            auto dimension_plus_one = dimension + 1;
+            for (Size i = 0; i < dimension; i++) {
+               const ScalarType* __restrict source_data = source_block.data() + dimension_plus_one * i * line_size;
+               ScalarType* __restrict destination_data = destination_block.data();
+               for (Size j = 0; j < line_size; j++) {
+                  destination_data[j] += source_data[j];
+               }
             }
          }
       }
-- 
2.43.0


From aa8924e1d5f06974cd336cf5489145bcdd7edbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 06/40] fix: keep existing sectors when an svd cut reaches
 exactly zero singular values

---
 include/TAT/svd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/svd.hpp b/include/TAT/svd.hpp
index 3d0acb9..2a98dac 100644
--- a/include/TAT/svd.hpp
+++ b/include/TAT/svd.hpp
@@ -366,7 +366,7 @@ namespace TAT {
          }
          for (Size i = 0; i < cut; i++) {
             Symmetry maximum_position;
-            real_base_t<ScalarType> maximum_singular = 0;
+            real_base_t<ScalarType> maximum_singular = -1;
             for (const auto& [symmetry, vector_s] : result_s) {
                if (auto& this_remain = remain_dimension_u.at(symmetry); this_remain != vector_s.size()) {
                   if (auto this_singular = vector_s[this_remain]; this_singular > maximum_singular) {
-- 
2.43.0


From 16a1831856a10ede7a242cf6f77dbce0a86cabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:59 +0000
Subject: [PATCH 07/40] fix: accumulate the total symmetry of the new edges in
 expand

---
 include/TAT/shrink_and_expand.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index 0e0ef35..aa4a889 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -51,11 +51,13 @@ namespace TAT {
             new_edges.push_back({{{Symmetry(), dimension}}});
          } else if constexpr (is_fermi) {
             const auto& [arrow, symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
          } else {
             const auto& [symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{symmetry, dimension}}});
-- 
2.43.0


From 952239008d260aa4be88c0bc01afb14b3674396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:12 +0000
Subject: [PATCH 08/40] fix: identity only fills diagonal blocks, and empty
 blocks of identity and exponential are skipped

---
 include/TAT/exponential.hpp          |  3 +++
 include/TAT/tensor_miscellaneous.hpp | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 606c54c..601d65a 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -233,6 +233,9 @@ namespace TAT {
       auto tensor_merged = edge_operator({}, {}, reverse_set, merge_map, merged_names);
       auto result = tensor_merged.same_shape();
       for (auto& [symmetries, data_source] : tensor_merged.core->blocks) {
+         if (data_source.empty()) {
+            continue;
+         }
          auto& data_destination = result.core->blocks.at(symmetries);
          auto n = tensor_merged.core->edges[0].map.at(symmetries[0]);
          matrix_exponential(n, data_source.data(), data_destination.data(), step);
diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 8d95a45..73c68e6 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -188,6 +188,9 @@ namespace TAT {
       auto current_index = VectorSize(rank, 0);
       while (true) {
          *pointer = 1;
+         if (rank == 0) {
+            return;
+         }
          Rank active_position = rank - 1;
 
          current_index[active_position]++;
@@ -242,6 +245,18 @@ namespace TAT {
       auto result = same_shape().zero();
 
       for (auto& [symmetries, block] : result.core->blocks) {
+         // 只有每一对边的对称性都互逆的分块才含有对角元
+         bool is_diagonal_block = !block.empty();
+         if constexpr (!std::is_same_v<Symmetry, NoSymmetry>) {
+            for (const auto& [index_1, index_2] : ordered_pair_index) {
+               if (symmetries[index_1] + symmetries[index_2] != Symmetry()) {
+                  is_diagonal_block = false;
+               }
+            }
+         }
+         if (!is_diagonal_block) {
+            continue;
+         }
          auto dimension = pmr::vector<Size>(rank);
          auto leading = pmr::vector<Size>(rank);
          for (Rank i = rank; i-- > 0;) {
-- 
2.43.0


From b432c21cae0e60cd3d02bdad8698be69cfabbb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:38 +0000
Subject: [PATCH 09/40] fix: skip colour codes when reading the text form of
 symmetric tensors and singulars

---
 include/TAT/io.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 2d30575..c5335bb 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -63,6 +63,13 @@ namespace TAT {
       in.ignore(std::numeric_limits<std::streamsize>::max(), end);
    }
 
+   // 忽略输出时写入的终端颜色控制序列, 参见UnixColorCode
+   inline void ignore_color_code(std::istream& in) {
+      while (in.peek() == '\x1B') {
+         ignore_util(in, 'm');
+      }
+   }
+
    template<typename ScalarType>
    std::istream& scan_complex(std::istream& in, std::complex<ScalarType>& value) {
       ScalarType part;
@@ -492,6 +499,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                std::vector<Symmetry> symmetries;
+               ignore_color_code(in);
                in >> symmetries;
                ignore_util(in, ':');
                in >> tensor.core->blocks[std::move(symmetries)];
@@ -536,6 +544,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                Symmetry symmetry;
+               ignore_color_code(in);
                in >> symmetry;
                ignore_util(in, ':');
                in >> value[symmetry];
-- 
2.43.0


From 2ae6e4c9b3f1f2fc4b0a8e37ff1d8bb983a5851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:38 +0000
Subject: [PATCH 10/40] fix: stop reading a text list at the end of the input
 instead of looping forever

---
 include/TAT/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index c5335bb..eb8548d 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -247,7 +247,7 @@ namespace TAT {
                in >> i;
             }
             char next = in.get();
-            if (next == ']') {
+            if (next == ']' || !in) {
                break;
             }
          }
-- 
2.43.0


From e4a6382a7b417ffac442967dde02f4b05e6cefc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:38 +0000
Subject: [PATCH 11/40] fix: do not overflow a fixed buffer when reading a long
 name

---
 include/TAT/io.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index eb8548d..5351ebe 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -128,13 +128,10 @@ namespace TAT {
 
    // inline std::istream& operator>>(std::istream& in, std::string& name) {
    inline std::istream& scan_string_for_name(std::istream& in, std::string& name) {
-      char buffer[256]; // max name length = 256
-      Size length = 0;
+      name.clear();
       while (valid_name_character(in.peek())) {
-         buffer[length++] = in.get();
+         name.push_back(in.get());
       }
-      buffer[length] = '\x00';
-      name = (const char*)buffer;
       return in;
    }
 
-- 
2.43.0


From 30582f910e9fe83a0555016400b7bd15866ead72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:38 +0000
Subject: [PATCH 12/40] fix: do not use an uninitialized count when binary
 input ends early

---
 include/TAT/io.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 5351ebe..46dcd94 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -149,7 +149,7 @@ namespace TAT {
       return out;
    }
    inline std::istream& operator>(std::istream& in, std::string& string) {
-      Size count;
+      Size count = 0;
       in > count;
       string.resize(count);
       in.read(string.data(), sizeof(char) * count);
@@ -193,7 +193,7 @@ namespace TAT {
    template<typename Key, typename Value, typename = std::enable_if_t<is_symmetry_v<Key> || is_symmetry_vector_v<Key>>>
    std::istream& operator>(std::istream& in, std::map<Key, Value>& map) {
       map.clear();
-      Size size;
+      Size size = 0;
       in > size;
       for (Size i = 0; i < size; i++) {
          Key key;
@@ -272,7 +272,7 @@ namespace TAT {
    template<typename T, typename A>
    std::istream& operator>(std::istream& in, std::vector<T, A>& list) {
       list.clear();
-      Size count;
+      Size count = 0;
       in > count;
       if constexpr (std::is_trivially_destructible_v<T>) {
          list.resize(count);
-- 
2.43.0


From 8333da9b217836813658a792315b1b429116cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:29 +0000
Subject: [PATCH 13/40] fix: do not read before the start of the leadings when
 a transpose is a linear copy

---
 include/TAT/transpose.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/TAT/transpose.hpp b/include/TAT/transpose.hpp
index 539e81f..8342f10 100644
--- a/include/TAT/transpose.hpp
+++ b/include/TAT/transpose.hpp
@@ -234,12 +234,9 @@ namespace TAT {
       if (leadings_source_by_destination[rank - 1] == 1 && leadings_destination[rank - 1] == 1) {
          Rank line_rank = rank - 1;
          Size expect_leading = 1;
+         // line_rank为0时完全线性copy
          while (expect_leading *= dimensions_destination[line_rank],
-                leadings_source_by_destination[line_rank - 1] == expect_leading && leadings_destination[line_rank - 1] == expect_leading) {
-            if (line_rank == 0) {
-               // 完全线性copy
-               break;
-            }
+                line_rank != 0 && leadings_source_by_destination[line_rank - 1] == expect_leading && leadings_destination[line_rank - 1] == expect_leading) {
             line_rank--;
          }
          auto const_expect_leading_varaint = to_const<Size, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>(expect_leading);
@@ -355,12 +352,9 @@ namespace TAT {
       if (real_leadings_source[rank - 1] == 1 && real_leadings_destination[rank - 1] == 1) {
          Rank line_rank = rank - 1;
          Size expect_leading = 1;
+         // line_rank为0时完全线性copy
          while (expect_leading *= real_dimensions[line_rank],
-                real_leadings_source[line_rank - 1] == expect_leading && real_leadings_destination[line_rank - 1] == expect_leading) {
-            if (line_rank == 0) {
-               // 完全线性copy
-               break;
-            }
+                line_rank != 0 && real_leadings_source[line_rank - 1] == expect_leading && real_leadings_destination[line_rank - 1] == expect_leading) {
             line_rank--;
          }
          auto const_expect_leading_varaint = to_const<Size, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>(expect_leading);
-- 
2.43.0


From 091d2e9cb967e37d626d1d53574c2d95c94ba123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:15 +0000
Subject: [PATCH 14/40] fix: loading a lazy graph snapshot resets nodes that
 depend on the restored ones

---
 include/lazy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lazy.hpp b/include/lazy.hpp
index 702c833..59ecf93 100644
--- a/include/lazy.hpp
+++ b/include/lazy.hpp
@@ -127,6 +127,7 @@ namespace lazy {
       }
 
       void load(std::any v) override {
+         unset(); // 下游节点可能在快照之后被计算过
          value = std::any_cast<std::shared_ptr<const Type>>(v);
       }
 
@@ -188,6 +189,7 @@ namespace lazy {
       node& operator=(node<Type>&&) = delete;
 
       void load(std::any v) override {
+         unset(); // 下游节点可能在快照之后被计算过
          value = std::any_cast<std::shared_ptr<const RealType>>(v);
       }
 
-- 
2.43.0


From a625311dd26bac1d1c0e5f2c21d58029565ffe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:10 +0000
Subject: [PATCH 15/40] fix: refuse to contract edges of different dimension
 without symmetry

---
 include/TAT/contract.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index fb83f36..47ab3af 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -616,6 +616,11 @@ namespace TAT {
       if (contract_names_1.size() != common_rank || contract_names_2.size() != common_rank) {
          TAT_error("Duplicated Contract Name");
       }
+      for (const auto& [name_1, name_2] : contract_names) {
+         if (!(tensor_1.core->edges[tensor_1.name_to_index.at(name_1)] == tensor_2.core->edges[tensor_2.name_to_index.at(name_2)])) {
+            TAT_error("Different Dimension to Contract");
+         }
+      }
       // 确认fuse name即相同名称的边
       pmr::set<Name> fuse_names;
       for (const auto& name : tensor_1.names) {
-- 
2.43.0


From 191f8d92f92c50f381bdb3c238441f7c549e49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:10 +0000
Subject: [PATCH 16/40] fix: refuse positions outside an edge instead of
 accessing other memory

---
 include/TAT/get_item.hpp          |  6 ++++++
 include/TAT/shrink_and_expand.hpp | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/TAT/get_item.hpp b/include/TAT/get_item.hpp
index 67549d9..c7a8535 100644
--- a/include/TAT/get_item.hpp
+++ b/include/TAT/get_item.hpp
@@ -57,6 +57,9 @@ namespace TAT {
       }
       Size offset = 0;
       for (Rank j = 0; j < rank; j++) {
+         if (scalar_position[j] >= dimensions[j]) {
+            TAT_error("Position out of range when finding offset");
+         }
          offset *= dimensions[j];
          offset += scalar_position[j];
       }
@@ -86,6 +89,9 @@ namespace TAT {
       }
       Size offset = 0;
       for (Rank j = 0; j < rank; j++) {
+         if (scalar_position[j] >= dimensions[j]) {
+            TAT_error("Position out of range when finding offset");
+         }
          offset *= dimensions[j];
          offset += scalar_position[j];
       }
diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index aa4a889..3603182 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -46,18 +46,27 @@ namespace TAT {
          new_names.push_back(name);
          if constexpr (is_no_symmetry) {
             const auto& [index, dimension] = information;
+            if (index >= dimension) {
+               TAT_error("Position out of range in Expand");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{Symmetry(), dimension}}});
          } else if constexpr (is_fermi) {
             const auto& [arrow, symmetry, index, dimension] = information;
             total_symmetry += symmetry;
+            if (index >= dimension) {
+               TAT_error("Position out of range in Expand");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
          } else {
             const auto& [symmetry, index, dimension] = information;
             total_symmetry += symmetry;
+            if (index >= dimension) {
+               TAT_error("Position out of range in Expand");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{symmetry, dimension}}});
@@ -124,6 +133,9 @@ namespace TAT {
             }
             const auto& this_edge = core->edges[name_to_index.at(name)];
             Size dimension = this_edge.map.at(symmetry);
+            if (index >= dimension) {
+               TAT_error("Position out of range in Shrink");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_names.push_back(name);
-- 
2.43.0


From b32d7af9bf337062ce1390e25b55bda96ca75f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:29 +0000
Subject: [PATCH 17/40] fix: refuse to trace two fermionic edges with the same
 arrow

---
 include/TAT/trace.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index a876bb1..f585a7c 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -72,6 +72,9 @@ namespace TAT {
                // found in trace_names
                // 对于费米子考虑方向, 应是一进一出才合法
                if constexpr (is_fermi) {
+                  if (core->edges[i].arrow == core->edges[name_to_index.at(*name_correspond)].arrow) {
+                     TAT_error("Different Fermi Arrow to Trace");
+                  }
                   if (core->edges[i].arrow) {
                      trace_1_names.push_back(name_to_find);
                      trace_2_names.push_back(*name_correspond);
-- 
2.43.0


From d29b057a5bcd993582f148870217367ad7acfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:43 +0000
Subject: [PATCH 18/40] fix: do not hand out memory past the scratch buffer
 after an empty allocation at its end

---
 include/TAT/pmr_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/pmr_resource.hpp b/include/TAT/pmr_resource.hpp
index 720134e..7e72eff 100644
--- a/include/TAT/pmr_resource.hpp
+++ b/include/TAT/pmr_resource.hpp
@@ -150,7 +150,7 @@ namespace TAT {
 
          void* do_allocate(std::size_t bytes, std::size_t alignment) override {
             std::size_t aligner = 0u;
-            if (remaining_storage(alignment, aligner) < bytes) {
+            if (remaining_storage(alignment, aligner) < bytes || m_current_buffer_size < aligner) {
                aligner = 0u;
                increase_next_size_to(bytes);
                m_current_buffer = m_upstream->allocate(m_next_buffer_size, alignof(std::max_align_t));
-- 
2.43.0


From 168d7f9fb2634028ef5c679741ce690e15ccc336 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:27:45 +0000
Subject: [PATCH 19/40] fix: square::conj of a complex number uses std::conj

std::complex has no member conj, so Markov sampling of a complex lattice did not compile.
---
 include/square/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/square/basic.hpp b/include/square/basic.hpp
index 650db66..786495a 100644
--- a/include/square/basic.hpp
+++ b/include/square/basic.hpp
@@ -56,7 +56,7 @@ namespace square {
    template<typename T>
    T conj(T input) {
       if constexpr (TAT::is_complex_v<T>) {
-         return input.conj();
+         return std::conj(input);
       } else {
          return input;
       }
-- 
2.43.0


From 6f658c22caa6eaa78b2e69c65a6a58e48dd9906f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:27:45 +0000
Subject: [PATCH 20/40] fix: exact lattice conjugates the bra in observables

The expectation value of a complex state was computed with v instead of v*,
so the norm was not positive and observables were wrong.
---
 include/square/exact_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/square/exact_lattice.hpp b/include/square/exact_lattice.hpp
index a5e7097..663686e 100644
--- a/include/square/exact_lattice.hpp
+++ b/include/square/exact_lattice.hpp
@@ -90,7 +90,7 @@ namespace square {
       }
 
       real<T> denominator() const {
-         return vector.contract_all_edge(vector).template to<real<T>>();
+         return vector.contract_all_edge(vector.conjugate()).template to<real<T>>();
       }
 
       template<typename C>
@@ -108,7 +108,7 @@ namespace square {
          }
          auto numerator = common_vector.contract_all_edge(common_observer.edge_rename(map_in))
                                 .edge_rename(map_out)
-                                .contract_all_edge(common_vector)
+                                .contract_all_edge(common_vector.conjugate())
                                 .template to<real<T>>();
          if (calculate_denominator) {
             return real<T>(numerator) / denominator();
-- 
2.43.0


From 48f9399552829c2b2b69c07e0b13b555c8a1ca97 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:28:16 +0000
Subject: [PATCH 21/40] fix: sampling an operator with an all zero row

Rows without any nonzero element were missing in the element maps,
so sampling threw std::out_of_range when the spin reached one of them.
---
 include/square/sampling_gradient_lattice.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 09111b4..7c87c31 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -481,6 +481,8 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
+            // 没有非零元的行也应当存在
+            result[std::vector<int>(index.begin(), index.begin() + body)];
             if (value != T(0)) {
                auto spins_in = std::vector<int>();
                auto spins_out = std::vector<int>();
@@ -530,6 +532,8 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
+            // 没有非零元的行也应当存在
+            result[std::vector<int>(index.begin(), index.begin() + body)];
             if (value != T(0)) {
                auto spins_in = std::vector<int>();
                auto spins_out = std::vector<int>();
-- 
2.43.0


From 9b7b52b85f96c8d8e28476edaa466d29590b8286 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:28:16 +0000
Subject: [PATCH 22/40] fix: do not reuse the elements of a released operator
 in sampling

The element maps are keyed by the address of the operator and lived forever,
so another operator allocated at the same address was sampled as the old one.
---
 include/square/sampling_gradient_lattice.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 7c87c31..69b7356 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -156,6 +156,7 @@ namespace square {
             std::map<std::string, std::map<std::vector<std::tuple<int, int>>, std::shared_ptr<const Tensor<T>>>> observers,
             bool calculate_energy = false,
             bool calculate_gradient = false) {
+         _clear_element_map();
          if (calculate_gradient) {
             calculate_energy = true;
          }
@@ -274,6 +275,7 @@ namespace square {
       auto ergodic(
             std::map<std::string, std::map<std::vector<std::tuple<int, int>>, std::shared_ptr<const Tensor<T>>>> observers,
             bool calculate_energy = false) {
+         _clear_element_map();
          std::cout << clear_line << "Ergodic sampling start, dimension=" << dimension_virtual << ", dimension_cut=" << dimension_cut << "\n"
                    << std::flush;
          if (calculate_energy) {
@@ -350,6 +352,7 @@ namespace square {
       }
 
       void equilibrate(std::uint64_t total_step) {
+         _clear_element_map();
          std::cout << clear_line << "Equilibrating start, total_step=" << total_step << ", dimension=" << dimension_virtual
                    << ", dimension_cut=" << dimension_cut << "\n"
                    << std::flush;
@@ -456,6 +459,12 @@ namespace square {
          return ws;
       }
 
+      // 元素表以张量地址为键, 张量可能已被释放且地址被重用, 所以每次采样前需要清空
+      static void _clear_element_map() {
+         tensor_element_map.clear();
+         tensor_hopping_element_map.clear();
+      }
+
       inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
 
       const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const Tensor<T>& tensor) const {
-- 
2.43.0


From cface071128422453de4b5c1139a860a61c49f32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:28:16 +0000
Subject: [PATCH 23/40] fix: simple update of a term whose first site is on the
 right or below

The bond update attaches I0 and O0 to the left or upper site, so a term given
for reversed positions was applied with its two sites exchanged.
---
 include/square/simple_update_lattice.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 4120730..1ebc36a 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -206,7 +206,7 @@ namespace square {
             const auto& position_2 = positions[1];
             if (std::get<0>(position_1) == std::get<0>(position_2)) {
                if (std::get<1>(position_1) == std::get<1>(position_2) + 1) {
-                  _single_term_simple_update_horizontal_bond(position_2, updater);
+                  _single_term_simple_update_horizontal_bond(position_2, _exchange_two_site(updater));
                   return;
                }
                if (std::get<1>(position_1) + 1 == std::get<1>(position_2)) {
@@ -216,7 +216,7 @@ namespace square {
             }
             if (std::get<1>(position_1) == std::get<1>(position_2)) {
                if (std::get<0>(position_1) == std::get<0>(position_2) + 1) {
-                  _single_term_simple_update_vertical_bond(position_2, updater);
+                  _single_term_simple_update_vertical_bond(position_2, _exchange_two_site(updater));
                   return;
                }
                if (std::get<0>(position_1) + 1 == std::get<0>(position_2)) {
@@ -228,6 +228,10 @@ namespace square {
          throw NotImplementedError("Unsupported simple update style");
       }
 
+      static Tensor<T> _exchange_two_site(const Tensor<T>& updater) {
+         return updater.edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}});
+      }
+
       void _single_term_simple_update_single_site(const std::tuple<int, int>& position, const Tensor<T>& updater) {
          auto [i, j] = position;
          lattice[i][j] = lattice[i][j].contract(updater, {{"P", "I0"}}).edge_rename({{"O0", "P"}});
-- 
2.43.0


From 3127c75d326e10b3fd5f686735ac35ec7dd340cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:30:54 +0000
Subject: [PATCH 24/40] fix: gradient of a complex lattice compiles

int and unsigned integers can not be combined with std::complex.
---
 include/square/sampling_gradient_lattice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 69b7356..e6564d3 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -265,7 +265,8 @@ namespace square {
             for (auto i = 0; i < M; i++) {
                for (auto j = 0; j < N; j++) {
                   // TODO reduce gradient
-                  gradient[i][j] = 2 * (holes_with_Es[i][j] / total_step) - 2 * (sum_of_Es / total_step) * (holes[i][j] / total_step);
+                  gradient[i][j] = real<T>(2) * (holes_with_Es[i][j] / real<T>(total_step)) -
+                                   real<T>(2) * (sum_of_Es / real<T>(total_step)) * (holes[i][j] / real<T>(total_step));
                }
             }
          }
-- 
2.43.0


From ea0fe0b9f777a35e4af02f0a29081cb8d3bc3b0f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:42:40 +0000
Subject: [PATCH 25/40] fix: dividing by a vanishing singular value gives zero
 instead of nan

Multiplying by singular values and dividing by them again, as simple update does
for every bond around an updated one, turned the whole state into nan as soon as
one singular value was exactly zero.
---
 include/TAT/tensor_miscellaneous.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 73c68e6..a61a11b 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -102,10 +102,12 @@ namespace TAT {
          if (division) {
             for (Size i = 0; i < k; i++) {
 #ifdef TAT_USE_SINGULAR_MATRIX
-               realS[i] = ScalarTypeS(1) / vector_in_S[i * dimension_plus_one];
+               const auto& value = vector_in_S[i * dimension_plus_one];
 #else
-               realS[i] = ScalarTypeS(1) / vector_in_S[i];
+               const auto& value = vector_in_S[i];
 #endif
+               // 奇异值为零时, 对应的分量本来就不存在, 不应当产生inf或者nan
+               realS[i] = value == ScalarTypeS(0) ? ScalarTypeS(0) : ScalarTypeS(1) / value;
             }
          } else {
 #ifdef TAT_USE_SINGULAR_MATRIX
-- 
2.43.0


From 6a342fe7c1dfea17360d7e131f0bcf38c7cb9bfa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 26/40] fix: random number generators of the Python interface
 can be returned to Python

---
 PyTAT/PyTAT.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index cc2be5e..a698114 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -751,7 +751,7 @@ namespace TAT {
       random_m.def("seed", &set_random_seed, "Set Random Seed");
       random_m.def(
             "uniform_int",
-            [](int min, int max) {
+            [](int min, int max) -> std::function<int()> {
                return [distribution = std::uniform_int_distribution<int>(min, max)]() mutable { return distribution(random_engine); };
             },
             py::arg("min") = 0,
@@ -759,7 +759,7 @@ namespace TAT {
             "Get random uniform integer");
       random_m.def(
             "uniform_real",
-            [](double min, double max) {
+            [](double min, double max) -> std::function<double()> {
                return [distribution = std::uniform_real_distribution<double>(min, max)]() mutable { return distribution(random_engine); };
             },
             py::arg("min") = 0,
@@ -767,7 +767,7 @@ namespace TAT {
             "Get random uniform real");
       random_m.def(
             "normal",
-            [](double mean, double stddev) {
+            [](double mean, double stddev) -> std::function<double()> {
                return [distribution = std::normal_distribution<double>(mean, stddev)]() mutable { return distribution(random_engine); };
             },
             py::arg("mean") = 0,
-- 
2.43.0


From 30da88360c239c6b09afc1b66a87ef7115d6bc4f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 27/40] fix: data of a tensor can be read from Python

---
 PyTAT/PyTAT.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index a698114..c16525e 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -269,7 +269,23 @@ namespace TAT {
             .def_property_readonly(
                   "edge", [](T& tensor) -> std::vector<E>& { return tensor.core->edges; }, "Edges of tensor")
             .def_property_readonly(
-                  "data", [](T& tensor) -> auto& { return tensor.core->blocks; }, "All block data of the tensor")
+                  "data",
+                  [](const T& tensor) {
+                     auto result = py::dict();
+                     for (const auto& [symmetries, block] : tensor.core->blocks) {
+                        auto key = py::tuple(tensor.names.size());
+                        for (auto i = 0; i < tensor.names.size(); i++) {
+                           if constexpr (std::is_same_v<Symmetry, NoSymmetry>) {
+                              key[i] = py::cast(Symmetry());
+                           } else {
+                              key[i] = py::cast(Symmetry(symmetries[i]));
+                           }
+                        }
+                        result[key] = py::cast(std::vector<ScalarType>(block.begin(), block.end()));
+                     }
+                     return result;
+                  },
+                  "All block data of the tensor")
             .def(py::self + py::self)
             .def(ScalarType() + py::self)
             .def(py::self + ScalarType())
-- 
2.43.0


From e80799ae1b39205ee31c0b8c90a0b0a2dd876683 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 28/40] fix: map of an edge without symmetry can be read from
 Python

---
 PyTAT/PyTAT.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index c16525e..55cc08a 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -616,7 +616,15 @@ namespace TAT {
    template<typename Symmetry, typename Element, bool IsTuple, template<typename, bool = false> class EdgeType = Edge>
    auto declare_edge(py::module_& edge_m, const char* name) {
       auto result = py::class_<EdgeType<Symmetry>>(edge_m, name, ("Edge with symmetry type as " + std::string(name) + "Symmetry").c_str())
-                          .def_readonly("map", &EdgeType<Symmetry>::map)
+                          .def_property_readonly(
+                                "map",
+                                [](const EdgeType<Symmetry>& edge) {
+                                   auto result = std::map<Symmetry, Size>();
+                                   for (const auto& [symmetry, dimension] : edge.map) {
+                                      result[symmetry] = dimension;
+                                   }
+                                   return result;
+                                })
                           .def(implicit_init<EdgeType<Symmetry>, Size>(), py::arg("dimension"), "Edge with only one symmetry")
                           .def(implicit_init<EdgeType<Symmetry>, std::map<Symmetry, Size>>(),
                                py::arg("dictionary_from_symmetry_to_dimension"),
-- 
2.43.0


From d69002b1c259a005d6d083c143dfc3ab13f5a312 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:50:28 +0000
Subject: [PATCH 29/40] fix: tensor with one element and default edge
 symmetries read beyond the given lists

---
 include/TAT/edge.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/TAT/edge.hpp b/include/TAT/edge.hpp
index 41235a3..47b2653 100644
--- a/include/TAT/edge.hpp
+++ b/include/TAT/edge.hpp
@@ -366,10 +366,13 @@ namespace TAT {
          auto result = pmr::vector<Edge<Symmetry>>();
          result.reserve(rank);
          for (auto i = 0; i < rank; i++) {
+            // symmetry and arrow not given are the default ones
+            auto symmetry = i < edge_symmetry.size() ? Symmetry(edge_symmetry[i]) : Symmetry();
             if constexpr (is_fermi_symmetry_v<Symmetry>) {
-               result.push_back({edge_arrow[i], {{edge_symmetry[i], 1}}});
+               auto arrow = i < edge_arrow.size() ? Arrow(edge_arrow[i]) : Arrow();
+               result.push_back({arrow, {{symmetry, 1}}});
             } else {
-               result.push_back({{{edge_symmetry[i], 1}}});
+               result.push_back({{{symmetry, 1}}});
             }
          }
          return result;
-- 
2.43.0


From 6665252592d938d5cc769348ecc25978e00d854b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:10 +0000
Subject: [PATCH 30/40] fix: stale upward lines of the Python auxiliaries after
 a site changed

---
 square/auxiliaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/auxiliaries.py b/square/auxiliaries.py
index dbe7ece..7651fc7 100644
--- a/square/auxiliaries.py
+++ b/square/auxiliaries.py
@@ -147,7 +147,7 @@ class SquareAuxiliariesSystem:
                     self._try_to_delete_auxiliaries("left-to-right-3-1", index - 1, j)
                     self._try_to_delete_auxiliaries("right-to-left-3-1", index - 1, j)
                 if flag:
-                    self._refresh_line(kind, index + 1)
+                    self._refresh_line(kind, index - 1)
         else:
             raise ValueError("Wrong Type in Refresh Line")
 
-- 
2.43.0


From e1e92b1a6e3ec4caba2c0a65d65e2414962429f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:10 +0000
Subject: [PATCH 31/40] fix: Python markov chain draws its random numbers

---
 square/sampling_gradient_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index e7a1703..dc7aba8 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -146,12 +146,12 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                 possible_hopping.append((spins_out, element))
         if possible_hopping:
             hopping_number = len(possible_hopping)
-            spins_new, element = possible_hopping[TAT.random.uniform_int(0, hopping_number - 1)]
+            spins_new, element = possible_hopping[TAT.random.uniform_int(0, hopping_number - 1)()]
             replacement = {positions[i]: spins_new[i] for i in range(body)}
             wss = float(self.spin[replacement])
             p = (wss**2) / (ws**2)
             # TODO 这里还需要统计一个额外的系数, 但是这个系数在Heisenberg模型中不存在, 所以目前没问题
-            if TAT.random.uniform_real(0, 1) < p:
+            if TAT.random.uniform_real(0, 1)() < p:
                 ws = wss
                 for i in range(body):
                     self.spin[positions[i][0], positions[i][1]] = spins_new[i]
-- 
2.43.0


From bc40a7d147e5c0c1f52a109fcfc04e54aa117725 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:10 +0000
Subject: [PATCH 32/40] fix: Python simple update of a term whose first site is
 on the right or below

---
 square/simple_update_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/square/simple_update_lattice.py b/square/simple_update_lattice.py
index 98f7161..1d63e1e 100644
--- a/square/simple_update_lattice.py
+++ b/square/simple_update_lattice.py
@@ -93,12 +93,12 @@ class SimpleUpdateLattice(AbstractNetworkLattice):
             position_1, position_2 = positions
             if position_1[0] == position_2[0]:
                 if position_1[1] == position_2[1] + 1:
-                    return self._single_term_simple_update_double_site_nearest_horizontal(position_2, updater)
+                    return self._single_term_simple_update_double_site_nearest_horizontal(position_2, updater.edge_rename({"I0": "I1", "I1": "I0", "O0": "O1", "O1": "O0"}))
                 if position_2[1] == position_1[1] + 1:
                     return self._single_term_simple_update_double_site_nearest_horizontal(position_1, updater)
             if position_1[1] == position_2[1]:
                 if position_1[0] == position_2[0] + 1:
-                    return self._single_term_simple_update_double_site_nearest_vertical(position_2, updater)
+                    return self._single_term_simple_update_double_site_nearest_vertical(position_2, updater.edge_rename({"I0": "I1", "I1": "I0", "O0": "O1", "O1": "O0"}))
                 if position_2[0] == position_1[0] + 1:
                     return self._single_term_simple_update_double_site_nearest_vertical(position_1, updater)
         raise NotImplementedError("Unsupported simple update style")
-- 
2.43.0


From 0dbbc634f47bc75c5cd3d919c544b711aad50652 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:10 +0000
Subject: [PATCH 33/40] fix: Python sampling does not change the observers it
 is given

---
 square/sampling_gradient_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index dc7aba8..587987c 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -184,7 +184,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         if calculate_gradient:
             result["Delta"] = {}
@@ -232,7 +232,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         # ergodic sampling
         sum_of_ws_square: float = 0
-- 
2.43.0


From 1d46f7052a2d6ad032f84c8d25ffc5542e94f806 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 34/40] fix: copy of a Python exact lattice shares its state
 with the original

---
 square/exact_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/exact_lattice.py b/square/exact_lattice.py
index 5de43f8..dc46b56 100644
--- a/square/exact_lattice.py
+++ b/square/exact_lattice.py
@@ -40,7 +40,7 @@ class ExactLattice(AbstractLattice):
     @multimethod
     def __init__(self, other: ExactLattice) -> None:
         super().__init__(other)
-        self.vector: Tensor = other.vector
+        self.vector: Tensor = other.vector.copy()
 
     @multimethod
     def __init__(self, other: simple_update_lattice.SimpleUpdateLattice) -> None:
-- 
2.43.0


From 97d22cf432c5a07e9045f38d004d4f71493b4e22 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 35/40] fix: Python sampling of an operator that annihilates
 the current configuration

---
 square/sampling_gradient_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 587987c..fdec834 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -141,7 +141,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         body: int = len(positions)
         current_spins: Tuple[int, ...] = tuple(self.spin.configuration[positions[i][0]][positions[i][1]] for i in range(body))
         possible_hopping: List[Tuple[int, ...], float] = []
-        for spins_out, element in self._find_element(hamiltonian)[current_spins].items():
+        for spins_out, element in self._find_element(hamiltonian).get(current_spins, {}).items():
             if spins_out != current_spins:
                 possible_hopping.append((spins_out, element))
         if possible_hopping:
@@ -203,7 +203,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                     body: int = len(positions)
                     current_spins: Tuple[int, ...] = tuple(self.spin.configuration[positions[i][0]][positions[i][1]] for i in range(body))
                     value = 0
-                    for spins_out, element in self._find_element(tensor)[current_spins].items():
+                    for spins_out, element in self._find_element(tensor).get(current_spins, {}).items():
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
                         value += element * wss / ws
                     result[kind][positions] += value
@@ -247,7 +247,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                     body: int = len(positions)
                     current_spins: Tuple[int, ...] = tuple(self.spin.configuration[positions[i][0]][positions[i][1]] for i in range(body))
                     value = 0
-                    for spins_out, element in self._find_element(tensor)[current_spins].items():
+                    for spins_out, element in self._find_element(tensor).get(current_spins, {}).items():
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
                         value += element * wss / ws
                     result[kind][positions] += value * ws * ws
-- 
2.43.0


From 3ba92d4c160443335d2d21cf3c15f9beb5afaf67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 36/40] fix: Python ergodic sampling of a state with a
 vanishing amplitude

---
 square/sampling_gradient_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index fdec834..363190b 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -249,9 +249,9 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                     value = 0
                     for spins_out, element in self._find_element(tensor).get(current_spins, {}).items():
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
-                        value += element * wss / ws
-                    result[kind][positions] += value * ws * ws
-            if "Energy" in result:
+                        value += element * wss
+                    result[kind][positions] += value * ws
+            if "Energy" in result and sum_of_ws_square != 0:
                 energy_result = result["Energy"]
                 print(f", Energy={sum(energy_result.values()) / (sum_of_ws_square * self.M * self.N)}", end="\r")
             else:
-- 
2.43.0


From d490f88420684e2b7e2ac1b447c1424953632bea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 37/40] fix: spin configuration of a copied Python sampling
 lattice belongs to the copy

---
 square/sampling_gradient_lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 363190b..d294fc7 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -106,6 +106,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
 
         self.dimension_cut: int = other.dimension_cut
         self.spin: SpinConfiguration = SpinConfiguration(other.spin)
+        self.spin.lattice = self
 
     @multimethod
     def __init__(self, other: simple_update_lattice.SimpleUpdateLattice, *, Dc: int = 2) -> None:
-- 
2.43.0


From d065faa241d6d3f88fa776a47bea99a874964042 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 38/40] fix: combining two Python auxiliaries systems combines
 their sites

---
 square/auxiliaries.py               | 4 ++++
 square/sampling_gradient_lattice.py | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/square/auxiliaries.py b/square/auxiliaries.py
index 7651fc7..925a594 100644
--- a/square/auxiliaries.py
+++ b/square/auxiliaries.py
@@ -58,6 +58,10 @@ class SquareAuxiliariesSystem:
                     # 这里不比较是否值一样, 只要不是同一个id, 就会报错
                     if self._lattice[i][j] is not other._lattice[i][j]:
                         raise ValueError("Overlap tensor in lattice when combining two SquareAuxiliariesSystem")
+        for i in range(self._M):
+            for j in range(self._N):
+                if self._lattice[i][j] is None:
+                    self._lattice[i][j] = other._lattice[i][j]
         self._auxiliaries |= other._auxiliaries
         return self
 
diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index d294fc7..e49d5cd 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -55,10 +55,14 @@ class SpinConfiguration(SquareAuxiliariesSystem):
                     if self.configuration[i][j] != other.configuration[i][j]:
                         raise ValueError("Overlap configuration when combining two spin configuration")
         super().__iadd__(other)
+        for i in range(self._M):
+            for j in range(self._N):
+                if self.configuration[i][j] == -1:
+                    self.configuration[i][j] = other.configuration[i][j]
         return self
 
     def __add__(self, other: SpinConfiguration) -> SpinConfiguration:
-        result = SpinConfiguration(other)
+        result = SpinConfiguration(self)
         result += other
         return result
 
-- 
2.43.0


From bb6950ac62497761cba800aa1ca07423aac361cf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 39/40] fix: Python sampling remembers the elements of tensors
 that are gone or have changed

---
 square/sampling_gradient_lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index e49d5cd..7ffd3c4 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -170,6 +170,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
             ws = self._hopping_spin_single_step_single_term(ws, positions, hamiltonian)
 
     def equilibrate(self, step: int):
+        self.tensor_element_dict.clear()
         for t in range(step):
             print(f"Equilibrating, total_step={step}, dimension={self.dimension_virtual}, dimension_cut={self.dimension_cut}, step={t}", end="\r")
             self._hopping_spin_single_step()
@@ -185,6 +186,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                      *,
                      calculate_energy: bool = False,
                      calculate_gradient: bool = False) -> Dict[Any, Dict[Tuple[Tuple[int, int]]], Tensor]:
+        self.tensor_element_dict.clear()
         # 准备结果的容器
         if calculate_energy:
             if "Energy" in observers:
@@ -233,6 +235,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         return result
 
     def ergodic(self, observers: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {}, *, calculate_energy: bool = False) -> Dict[Any, Dict[Tuple[Tuple[int, int]]], Tensor]:
+        self.tensor_element_dict.clear()
         # 准备结果的容器
         if calculate_energy:
             if "Energy" in observers:
-- 
2.43.0


From 00e2bc2867fb81ac8395f32f0babdb7208a5055f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 40/40] fix: gradient of the Python markov chain uses the
 energy and the amplitude of each sample

---
 square/sampling_gradient_lattice.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 7ffd3c4..4842314 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -188,7 +188,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                      calculate_gradient: bool = False) -> Dict[Any, Dict[Tuple[Tuple[int, int]]], Tensor]:
         self.tensor_element_dict.clear()
         # 准备结果的容器
-        if calculate_energy:
+        if calculate_energy or (calculate_gradient and "Energy" not in observers):
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
             observers = {**observers, "Energy": self.hamiltonian}
@@ -205,6 +205,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
             self._hopping_spin_single_step()
             print(f"Markov sampling, total_step={step}, dimension={self.dimension_virtual}, dimension_cut={self.dimension_cut}, step={t}", end="")
             ws = float(self.spin[None])
+            Es: float = 0
             for kind, group in observers.items():
                 for positions, tensor in group.items():
                     body: int = len(positions)
@@ -214,11 +215,12 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
                         value += element * wss / ws
                     result[kind][positions] += value
+                    if kind == "Energy":
+                        Es += value
             if calculate_gradient:
-                Es = sum(result["Energy"].values());
                 for i in range(self.M):
                     for j in range(self.N):
-                        this_delta = self.spin[((i, j),)]
+                        this_delta = self.spin[((i, j),)] / ws
                         result["Delta"][((i, j),)] += this_delta
                         result["EDelta"][((i, j),)] += Es * this_delta
             if "Energy" in result:
-- 
2.43.0

