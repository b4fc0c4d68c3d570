From 86e51e074c48ccfd91c3a1367525bf3c6cad75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 01/27] fix: HasIndexOfType looked one past the last operator
 index

---
 include/ieompp/algebra/operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator.hpp b/include/ieompp/algebra/operator.hpp
index 75ecd3c..e863a1c 100644
--- a/include/ieompp/algebra/operator.hpp
+++ b/include/ieompp/algebra/operator.hpp
@@ -32,7 +32,7 @@ namespace ieompp
             static_assert(IsOperator<Op>::value, "Operator must be an operator");
 
             static constexpr bool value =
-                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices>::value;
+                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices - 1>::value;
         };
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From bdb028f75de72812794e8e55580174038dc07ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 02/27] fix: Term::conjugate iterates over its operators

---
 include/ieompp/algebra/term/term.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 31185e1..a38799e 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -24,7 +24,7 @@ namespace ieompp
             {
                 prefactor = types::conjugate(prefactor);
                 std::reverse(operators.begin(), operators.end());
-                for(auto& op : *this) {
+                for(auto& op : operators) {
                     op.conjugate();
                 }
             }
-- 
2.43.0


From a8f1b012c2e85024209426f4b892f8e307d9d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 03/27] fix: copy_as_unique_terms calls the existing
 have_same_operators

---
 include/ieompp/algebra/term/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/list.hpp b/include/ieompp/algebra/term/list.hpp
index 4e82522..ccb6be4 100644
--- a/include/ieompp/algebra/term/list.hpp
+++ b/include/ieompp/algebra/term/list.hpp
@@ -24,7 +24,7 @@ namespace ieompp
                     lst.push_back(t);
                     continue;
                 }
-                if(pos->same_operators(t)) {
+                if(pos->have_same_operators(t)) {
                     pos->prefactor += t.prefactor;
                 } else {
                     lst.insert(pos, t);
-- 
2.43.0


From 07ef5640542c2dfdc84a82eeccb451d3dec5fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 04/27] fix: total_spin uses the existing IndexType::Type

---
 include/ieompp/algebra/term/checks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index 8885670..e0797f7 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -31,7 +31,7 @@ namespace ieompp
         int total_spin(const Term& t)
         {
             static_assert(
-                std::is_same<typename IndexType<Index, typename Term::Operator>::type, bool>::value,
+                std::is_same<typename IndexType<Index, typename Term::Operator>::Type, bool>::value,
                 "spin index must be a boolean");
 
             int spin = 0;
-- 
2.43.0


From ab74f6a417376848f31ef3f049e313b7d345debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 05/27] fix: order_kroneckers compares first names with first
 names

---
 include/ieompp/symbolic/prefactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 3d26ea4..278f6be 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -69,7 +69,7 @@ namespace ieompp
                               if(a.a < b.a) {
                                   return true;
                               }
-                              if(a.b > b.a) {
+                              if(a.a > b.a) {
                                   return false;
                               }
                               return a.b < b.b;
-- 
2.43.0


From 390395ad03460035155e928ff933188ab0a4bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 06/27] fix: IntegerIterator::operator-= moves backwards

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 351d4c1..94a350c 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -149,7 +149,7 @@ namespace ieompp
         inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
         operator-=(const typename IntegerIterator<T, const_iterator>::difference_type& diff)
         {
-            _val += diff;
+            _val -= diff;
             return *this;
         }
 
-- 
2.43.0


From 05f36456ccb24b82d2202495e5f4348bc8c66576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 07/27] fix: postfix increment and decrement of IntegerIterator
 returned a reference to a temporary

---
 include/ieompp/iterators/integer_iterator.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 94a350c..5793416 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -52,9 +52,9 @@ namespace ieompp
             reference operator*();
             value_type operator[](const difference_type& diff);
             reference operator++();
-            reference operator++(int);
+            IntegerIterator operator++(int);
             reference operator--();
-            reference operator--(int);
+            IntegerIterator operator--(int);
             IntegerIterator& operator+=(const difference_type& diff);
             IntegerIterator& operator-=(const difference_type& diff);
             IntegerIterator operator+(const difference_type& diff) const;
@@ -117,10 +117,10 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline IntegerIterator<T, const_iterator>
             IntegerIterator<T, const_iterator>::operator++(int)
         {
-            return _val++;
+            return IntegerIterator<T, const_iterator>(_val++);
         }
 
         template <typename T, bool const_iterator>
@@ -131,10 +131,10 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline IntegerIterator<T, const_iterator>
             IntegerIterator<T, const_iterator>::operator--(int)
         {
-            return _val--;
+            return IntegerIterator<T, const_iterator>(_val--);
         }
 
         template <typename T, bool const_iterator>
-- 
2.43.0


From a3e606091c7aa8c38306877068b25428b5f64601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 08/27] fix: befriend the free operators + and - of
 IntegerIterator

---
 include/ieompp/iterators/integer_iterator.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 5793416..8bff4a9 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -31,13 +31,15 @@ namespace ieompp
             using pointer           = typename use_first<const T*, T*, const_iterator>::type;
             using reference         = typename use_first<const T&, T&, const_iterator>::type;
 
-            template <typename T_>
-            friend IntegerIterator<T_, const_iterator>
-            operator+(const IntegerIterator<T_, const_iterator>&, const difference_type&);
-
-            template <typename T_>
-            friend IntegerIterator<T_, const_iterator>
-            operator-(const IntegerIterator<T_, const_iterator>&, const difference_type&);
+            template <typename T_, bool const_iterator_>
+            friend IntegerIterator<T_, const_iterator_>
+            operator+(const typename IntegerIterator<T_, const_iterator_>::difference_type&,
+                      const IntegerIterator<T_, const_iterator_>&);
+
+            template <typename T_, bool const_iterator_>
+            friend IntegerIterator<T_, const_iterator_>
+            operator-(const typename IntegerIterator<T_, const_iterator_>::difference_type&,
+                      const IntegerIterator<T_, const_iterator_>&);
 
         private:
             value_type _val;
-- 
2.43.0


From 2950e066113f5e60bd0da1bd0fccd882acca4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 09/27] fix: PeriodicChain lookup of positions between the last
 site and the end of the period

---
 include/ieompp/lattices/periodic_chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 3b88057..acb8de7 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -249,7 +249,7 @@ namespace ieompp
             while(v < _x_min) {
                 v += _x_length;
             }
-            while(v > _x_max) {
+            while(v > _x_min + _x_length) {
                 v -= _x_length;
             }
             return SiteIndex(std::round((v - _x_min) / _dx)) % _size;
-- 
2.43.0


From 9e6bfaf06601b257d7faf704cd9f68a2aaeb8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 10/27] fix: PeriodicChain::closest of positions near the upper
 edge of the Brillouin zone

---
 include/ieompp/lattices/periodic_chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index acb8de7..dbfa4e4 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -110,7 +110,7 @@ namespace ieompp
             while(v < _x_min - dx2) {
                 v += _x_length;
             }
-            while(v > _x_max + dx2) {
+            while(v > _x_min + _x_length - dx2) {
                 v -= _x_length;
             }
             Float min_dist = ((*this)[SiteIndex(0)] - v) * ((*this)[SiteIndex(0)] - v), dist;
-- 
2.43.0


From 3be68a63932a28fd5f7d5f82f28b04134761ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 11/27] fix: PeriodicSquareLattice site index for lattices with
 different extents

---
 .../lattices/periodic_square_lattice.hpp      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 91bbbef..96c2a7e 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -114,26 +114,26 @@ namespace ieompp
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::index(const Index& x, const Index& y) const
         {
-            return x * _size_x + y;
+            return x * _size_y + y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::x_index(const Index& i) const
         {
-            return i / _size_x;
+            return i / _size_y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::y_index(const Index& i) const
         {
-            return i % _size_x;
+            return i % _size_y;
         }
 
         template <typename Float, typename Index>
         std::array<Index, 4> PeriodicSquareLattice<Float, Index>::neighbors(const Index& idx) const
         {
-            const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto i = x_index(idx);
+            const auto j = y_index(idx);
             return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                          index(i, (j == 0) ? _size_y - 1 : j - 1),
                                          index((i == _size_x - 1) ? 0 : i + 1, j),
@@ -144,8 +144,8 @@ namespace ieompp
         std::array<Index, 2>
         PeriodicSquareLattice<Float, Index>::unique_neighbors(const Index& idx) const
         {
-            const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto i = x_index(idx);
+            const auto j = y_index(idx);
             return std::array<Index, 2>{{index((i == _size_x - 1) ? 0 : i + 1, j),
                                          index(i, (j == _size_y - 1) ? 0 : j + 1)}};
         }
@@ -353,8 +353,8 @@ namespace ieompp
                                 typename PeriodicSquareLattice<Float, Index>::Vector>::type
             PeriodicSquareLattice<Float, Index>::operator[](const IndexT& idx) const
         {
-            const Index i = idx / _size_x;
-            const Index j = idx % _size_x;
+            const Index i = x_index(idx);
+            const Index j = y_index(idx);
             return Vector{_x_min + i * _dx, _y_min + j * _dy};
         }
 
@@ -376,7 +376,7 @@ namespace ieompp
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx));
             const auto j = Index(std::round((v[1] - _y_min) / _dy));
-            return i * _size_x + j;
+            return index(i, j);
         }
     } // namespace lattices
 } // namespace ieompp
-- 
2.43.0


From 9ba0bdad61cb1cb2447ca2a7d5819521ea5d68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 12/27] fix: PeriodicSquareLattice lookup maps every position
 to a valid site

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 96c2a7e..763d580 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -365,17 +365,17 @@ namespace ieompp
             while(v[0] < _x_min) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max) {
+            while(v[0] > _x_min + _x_length) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max) {
+            while(v[1] > _y_min + _y_length) {
                 v[1] -= _y_length;
             }
-            const auto i = Index(std::round((v[0] - _x_min) / _dx));
-            const auto j = Index(std::round((v[1] - _y_min) / _dy));
+            const auto i = Index(std::round((v[0] - _x_min) / _dx)) % _size_x;
+            const auto j = Index(std::round((v[1] - _y_min) / _dy)) % _size_y;
             return index(i, j);
         }
     } // namespace lattices
-- 
2.43.0


From 0f41feec27733cb1f0338427c2ca88f97bf33596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 13/27] fix: PeriodicSquareLattice::closest of positions near
 the upper edges of the Brillouin zone

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 763d580..9369d32 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -158,13 +158,13 @@ namespace ieompp
             while(v[0] < _x_min - dx2) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max + dx2) {
+            while(v[0] > _x_min + _x_length - dx2) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min - dy2) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max + dy2) {
+            while(v[1] > _y_min + _y_length - dy2) {
                 v[1] -= _y_length;
             }
             Float min_dist = types::dot_product(v - (*this)[Index(0)], v - (*this)[Index(0)]);
-- 
2.43.0


From a5d1903751c8d56a8e54557fdb6990119fb829f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 14/27] fix: print_tuple printed the last element in place of
 every element

---
 include/ieompp/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/tuple.hpp b/include/ieompp/tuple.hpp
index 55cf820..35b4df1 100644
--- a/include/ieompp/tuple.hpp
+++ b/include/ieompp/tuple.hpp
@@ -13,7 +13,7 @@ namespace ieompp
         struct TuplePrinter {
             static void print(std::ostream& strm, const Tuple& t, const std::string& delimiter)
             {
-                strm << std::get<N>(t) << delimiter;
+                strm << std::get<I>(t) << delimiter;
                 TuplePrinter<Tuple, I + 1, N>::print(strm, t, delimiter);
             }
         };
-- 
2.43.0


From e29b987ebe99fcd1cee24f362e9b4a3869202cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 15/27] fix: is_hermitian compares with the transposed entry,
 IsZero reads the matrix

---
 include/ieompp/types/matrix_check.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 456e94d..14b003d 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_TYPES_MATRIX_CHECK_HPP_
 
 #include "ieompp/types/matrix.hpp"
+#include "ieompp/types/number.hpp"
 
 #include <type_traits>
 
@@ -48,7 +49,7 @@ namespace ieompp
             const Index N = MatrixDimensionInfo<Matrix>::rows(m);
             for(Index i = 0; i < N; ++i) {
                 for(Index j = 0; j <= i; ++j) {
-                    if(!IsEqual(m(i, j), conjugate(m(i, j)))) {
+                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
                         return false;
                     }
                 }
@@ -65,7 +66,7 @@ namespace ieompp
             const auto cols = MatrixDimensionInfo<Matrix>::columns(m);
             for(Index i = 0; i < rows; ++i) {
                 for(Index j = 0; j < cols; ++j) {
-                    if(!IsZero(t(i, j))) {
+                    if(!IsZero(m(i, j))) {
                         return false;
                     }
                 }
-- 
2.43.0


From 319a7546fc062a2a767f87196dccc62c7769782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 16/27] fix: SiteOccupation::expectation_value passes the
 monomials on

---
 include/ieompp/models/hubbard_real_space/site_occupation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index 4c6f0dd..c02dd58 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -234,7 +234,7 @@ namespace ieompp
                     if(b.size() == 1) {
                         return expectation_value_3_1(a, b);
                     }
-                    return expectation_value_3_3();
+                    return expectation_value_3_3(a, b);
                 }
 
                 template <typename Vector>
-- 
2.43.0


From a12286635d4041e2070f01a09414d322e970cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 17/27] fix: Fermi jump wrote Fourier coefficients into a
 vector of size zero

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 24eee95..9709a51 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -45,7 +45,7 @@ namespace ieompp
                 FermiJump1D(const Lattice& lattice, ExpectationValueFunction expectation_value, const Float& k_F)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 69f7057..05311ad 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -49,7 +49,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
@@ -107,7 +107,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
-- 
2.43.0


From cb4125bd97bfaf740807685b8f85f6e84fe0713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 18/27] fix: Fermi jump kept a buffer of the size used by the
 first call

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 9709a51..e16ef72 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -121,7 +121,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index b739c91..961d78c 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -61,7 +61,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
-- 
2.43.0


From 4949d5871b29dc45eac8456b74a9d484d90242e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 19/27] fix: TripletList handles the empty list

---
 include/ieompp/types/triplet.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ieompp/types/triplet.hpp b/include/ieompp/types/triplet.hpp
index bbd9178..2a1eca0 100644
--- a/include/ieompp/types/triplet.hpp
+++ b/include/ieompp/types/triplet.hpp
@@ -34,6 +34,9 @@ namespace ieompp
             TripletList make_columns_unique() const
             {
                 TripletList filtered;
+                if(this->empty()) {
+                    return filtered;
+                }
                 filtered.reserve(this->size());
 
                 auto triplet = this->front();
@@ -53,6 +56,9 @@ namespace ieompp
 
             bool has_unique_columns() const
             {
+                if(this->empty()) {
+                    return true;
+                }
                 for(auto it = this->begin() + 1; it != this->end(); ++it) {
                     if(it->column == (it - 1)->column) {
                         return false;
-- 
2.43.0


From ade665b92f0ffe8aff680a156fe6975183d1ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 20/27] fix: next_line stops at the end of the stream

---
 include/ieompp/io/line.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 5d630a5..1115d49 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -17,12 +17,12 @@ namespace ieompp
         std::string next_line(std::istream& strm)
         {
             std::string buf;
-            do {
-                std::getline(strm, buf);
+            while(std::getline(strm, buf)) {
                 if(!is_skippable_line(buf)) {
                     return buf;
                 }
-            } while(true);
+            }
+            return std::string();
         }
     } // namespace io
 } // namespace ieompp
-- 
2.43.0


From 520a959e70747988539ab9ca21ddd830270af528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 21/27] fix: make_kronecker of numbers uses std::to_string

---
 include/ieompp/algebra/kronecker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/kronecker.hpp b/include/ieompp/algebra/kronecker.hpp
index bab6c61..1b2bac2 100644
--- a/include/ieompp/algebra/kronecker.hpp
+++ b/include/ieompp/algebra/kronecker.hpp
@@ -46,7 +46,7 @@ namespace ieompp
         typename std::enable_if<std::is_arithmetic<IndexType>::value, Kronecker>::type
         make_kronecker(const IndexType& a, const IndexType& b)
         {
-            return Kronecker{to_string(a), to_string(b)};
+            return Kronecker{std::to_string(a), std::to_string(b)};
         }
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From fbc6b3dcd8d4521cb5daf41c3ecbf5b512f7365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 22/27] fix: a site of a square lattice with a single column is
 its own neighbor in x direction

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 9369d32..3569d28 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -294,8 +294,9 @@ namespace ieompp
             const auto x_b = x_index(b);
             const auto y_b = y_index(b);
 
-            if(x_a == x_b) {
-                return ((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a);
+            if((x_a == x_b)
+               && (((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a))) {
+                return true;
             }
 
             if(y_a == y_b) {
-- 
2.43.0


From 94875ac0086e337fa76fa56c0802a92fb4f9434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:20 +0000
Subject: [PATCH 23/27] fix: dimensions of a function matrix, which the
 Runge-Kutta step asks for

---
 include/ieompp/types/function_matrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ieompp/types/function_matrix.hpp b/include/ieompp/types/function_matrix.hpp
index bcadade..83e213e 100644
--- a/include/ieompp/types/function_matrix.hpp
+++ b/include/ieompp/types/function_matrix.hpp
@@ -1,6 +1,7 @@
 #ifndef IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 #define IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 
+#include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 
 #include <functional>
@@ -76,6 +77,12 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, typename Index>
+        struct MatrixDimensionInfo<FunctionMatrix<Scalar, Index>> {
+            static Index rows(const FunctionMatrix<Scalar, Index>& m) { return m.rows(); }
+            static Index columns(const FunctionMatrix<Scalar, Index>& m) { return m.cols(); }
+        };
+
         template <typename Scalar, typename Index>
         std::ostream& operator<<(std::ostream& strm, const FunctionMatrix<Scalar, Index>& matrix)
         {
-- 
2.43.0


From ba8cfa584deccfa51070d9c7ff0fd6433da78ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:31 +0000
Subject: [PATCH 24/27] fix: hole counterpart in the normal-ordered Liouvillian

The contraction of c_j with c+_i in n_j c+_i is <c_j c+_i> = delta_ij - <c+_i c_j>. The element of
c+_j already used it, those of c+_l and of the products (j,j,l) and (l,j,l) used <c+_j c_i> instead:
for j == l the elements of c+_j and c+_l did not cancel although n_j - n_l vanishes.
---
 .../ieompp/models/hubbard_real_space/blaze_sparse_no.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 71f1b7d..2dbe9dc 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -143,7 +143,7 @@ namespace ieompp
                     // clang-format off
                     triplets.emplace_back(row, r1, liouvillian.U * expectation_value(op2.index1, op1.index1) * expectation_value_conj(op3.index1, op1.index1));
                     triplets.emplace_back(row, r2, liouvillian.U * expectation_value_conj(op2.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
-                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
+                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value_conj(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
                     // clang-format on
 
                     // 3-operator monomials
@@ -152,8 +152,8 @@ namespace ieompp
                     triplets.emplace_back(row, basis.get_3op_index(r1, r1, r3), -liouvillian.U * expectation_value(op2.index1, op1.index1));
                     triplets.emplace_back(row, basis.get_3op_index(r1, r2, r1), liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     if(r2 != r3) {
-                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value(op2.index1, op1.index1));
-                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value(op3.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value_conj(op2.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     }
                     // clang-format on
 
-- 
2.43.0


From 10e0c37e1fa4989cacf5011daa69d28f1438b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:57 +0000
Subject: [PATCH 25/27] fix: skip comment lines that end in a carriage return
 or are long

'.' of the regular expression does not match a carriage return, so the comment lines
of a file with CRLF line ends were returned as data; and std::regex recurses once
per character, so a long comment line overflowed the stack.
---
 include/ieompp/io/line.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 1115d49..73f4914 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -3,6 +3,7 @@
 
 #include <istream>
 #include <regex>
+#include <string>
 
 namespace ieompp
 {
@@ -10,8 +11,9 @@ namespace ieompp
     {
         bool is_skippable_line(const std::string& str)
         {
-            static const std::regex reg(R"(^\s*(?:#.*)?$)");
-            return std::regex_match(str, reg);
+            // blank, or a comment: the first character that is not white space is a '#'
+            const auto pos = str.find_first_not_of(" \t\n\v\f\r");
+            return pos == std::string::npos || str[pos] == '#';
         }
 
         std::string next_line(std::istream& strm)
-- 
2.43.0


From 3909b21f61bf74cc540d8cd7a01d923c1af4288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:24 +0000
Subject: [PATCH 26/27] fix: multiplying a monomial, term or symbolic prefactor
 in place with itself used invalidated iterators

---
 include/ieompp/algebra/monomial/monomial.hpp | 4 ++++
 include/ieompp/algebra/term/term.hpp         | 4 ++++
 include/ieompp/symbolic/prefactor.hpp        | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/include/ieompp/algebra/monomial/monomial.hpp b/include/ieompp/algebra/monomial/monomial.hpp
index b54cac3..b72d9be 100644
--- a/include/ieompp/algebra/monomial/monomial.hpp
+++ b/include/ieompp/algebra/monomial/monomial.hpp
@@ -69,6 +69,10 @@ namespace ieompp
 
             Monomial& operator*=(const Monomial& rhs)
             {
+                if(this == &rhs) {
+                    // appending to the monomial would invalidate the iterators into itself
+                    return *this *= Monomial(rhs);
+                }
                 std::copy(rhs.begin(), rhs.end(), std::back_inserter(*this));
                 return *this;
             }
diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index a38799e..e18b6f6 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -50,6 +50,10 @@ namespace ieompp
 
             Term& operator*=(const Term& rhs)
             {
+                if(this == &rhs) {
+                    // appending to the operators would invalidate the iterators into them
+                    return *this *= Term(rhs);
+                }
                 prefactor *= rhs.prefactor;
                 std::copy(rhs.operators.begin(), rhs.operators.end(),
                           std::back_inserter(operators));
diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 278f6be..5406030 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -30,6 +30,10 @@ namespace ieompp
 
             Prefactor& operator*=(const std::vector<Kronecker>& rhs)
             {
+                if(&kroneckers == &rhs) {
+                    // appending to the deltas would invalidate the iterators into them
+                    return *this *= std::vector<Kronecker>(rhs);
+                }
                 std::copy(rhs.begin(), rhs.end(), std::back_inserter(kroneckers));
                 return *this;
             }
@@ -37,6 +41,10 @@ namespace ieompp
             template <typename Value_, typename Container_>
             Prefactor& operator*=(const Prefactor<Value_, Container_>& rhs)
             {
+                if(static_cast<const void*>(this) == static_cast<const void*>(&rhs)) {
+                    // appending to the deltas would invalidate the iterators into them
+                    return *this *= Prefactor<Value_, Container_>(rhs);
+                }
                 std::copy(rhs.kroneckers.begin(), rhs.kroneckers.end(),
                           std::back_inserter(kroneckers));
                 value *= rhs.value;
-- 
2.43.0


From 775140078123a0f32ee5bf548b5773d5a8c88b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:58 +0000
Subject: [PATCH 27/27] fix: get_index of a temporary operator with three or
 more indices did not compile

---
 include/ieompp/algebra/operator/get_index.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator/get_index.hpp b/include/ieompp/algebra/operator/get_index.hpp
index 5aaefeb..c8f5a2e 100644
--- a/include/ieompp/algebra/operator/get_index.hpp
+++ b/include/ieompp/algebra/operator/get_index.hpp
@@ -4,6 +4,7 @@
 #include "ieompp/algebra/operator/operator.hpp"
 
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -65,7 +66,7 @@ namespace ieompp
         constexpr typename std::tuple_element<I, typename Operator<IndexTypes...>::Indices>::type&&
         get_index(Operator<IndexTypes...>&& op)
         {
-            return std::get<I>(op.indices);
+            return std::get<I>(std::move(op.indices));
         }
 
         template <std::size_t I, typename Index>
-- 
2.43.0

