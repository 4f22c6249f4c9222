From cc0cea21180ac2571ad9045cfc6d376958fdd68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 01/55] fix: IntegerIterator::operator-= moves backwards

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 351d4c1..94a350c 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -149,7 +149,7 @@ namespace ieompp
         inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
         operator-=(const typename IntegerIterator<T, const_iterator>::difference_type& diff)
         {
-            _val += diff;
+            _val -= diff;
             return *this;
         }
 
-- 
2.43.0


From 2da61d0761e7ae0129b3d9c1ceaa7fcc44987b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/55] fix: IntegerIterator post-increment and post-decrement
 return a value, not a reference to a temporary

---
 include/ieompp/iterators/integer_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 94a350c..bd26bfc 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -52,9 +52,9 @@ namespace ieompp
             reference operator*();
             value_type operator[](const difference_type& diff);
             reference operator++();
-            reference operator++(int);
+            value_type operator++(int);
             reference operator--();
-            reference operator--(int);
+            value_type operator--(int);
             IntegerIterator& operator+=(const difference_type& diff);
             IntegerIterator& operator-=(const difference_type& diff);
             IntegerIterator operator+(const difference_type& diff) const;
@@ -117,7 +117,7 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline typename IntegerIterator<T, const_iterator>::value_type
             IntegerIterator<T, const_iterator>::operator++(int)
         {
             return _val++;
@@ -131,7 +131,7 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline typename IntegerIterator<T, const_iterator>::value_type
             IntegerIterator<T, const_iterator>::operator--(int)
         {
             return _val--;
-- 
2.43.0


From 6d1ee59d12b705c383a17079c6ba112b006fb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 03/55] fix: offset + IntegerIterator does not use an
 inaccessible member

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index bd26bfc..db689e9 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -223,7 +223,7 @@ namespace ieompp
         operator+(const typename IntegerIterator<T, const_iterator>::difference_type& diff,
                   const IntegerIterator<T, const_iterator>& it)
         {
-            return IntegerIterator<T, const_iterator>(diff + it._val);
+            return it + diff;
         }
 
         template <typename T, bool const_iterator>
-- 
2.43.0


From 1996e99bacffb5cd0a82512897ef018c0f19e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 04/55] fix: PeriodicSquareLattice uses one row length for all
 site indices when Nx != Ny

---
 .../ieompp/lattices/periodic_square_lattice.hpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 91bbbef..1f77c00 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -114,26 +114,26 @@ namespace ieompp
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::index(const Index& x, const Index& y) const
         {
-            return x * _size_x + y;
+            return x * _size_y + y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::x_index(const Index& i) const
         {
-            return i / _size_x;
+            return i / _size_y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::y_index(const Index& i) const
         {
-            return i % _size_x;
+            return i % _size_y;
         }
 
         template <typename Float, typename Index>
         std::array<Index, 4> PeriodicSquareLattice<Float, Index>::neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                          index(i, (j == 0) ? _size_y - 1 : j - 1),
                                          index((i == _size_x - 1) ? 0 : i + 1, j),
@@ -145,7 +145,7 @@ namespace ieompp
         PeriodicSquareLattice<Float, Index>::unique_neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 2>{{index((i == _size_x - 1) ? 0 : i + 1, j),
                                          index(i, (j == _size_y - 1) ? 0 : j + 1)}};
         }
@@ -353,8 +353,8 @@ namespace ieompp
                                 typename PeriodicSquareLattice<Float, Index>::Vector>::type
             PeriodicSquareLattice<Float, Index>::operator[](const IndexT& idx) const
         {
-            const Index i = idx / _size_x;
-            const Index j = idx % _size_x;
+            const Index i = idx / _size_y;
+            const Index j = idx % _size_y;
             return Vector{_x_min + i * _dx, _y_min + j * _dy};
         }
 
@@ -376,7 +376,7 @@ namespace ieompp
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx));
             const auto j = Index(std::round((v[1] - _y_min) / _dy));
-            return i * _size_x + j;
+            return i * _size_y + j;
         }
     } // namespace lattices
 } // namespace ieompp
-- 
2.43.0


From d461b6a4ecd290cb15a6a664bab98ff1fd21a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 05/55] fix: closest() sees the periodic image across the upper
 Brillouin zone boundary

---
 include/ieompp/lattices/periodic_chain.hpp          | 2 +-
 include/ieompp/lattices/periodic_square_lattice.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 3b88057..76c257b 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -110,7 +110,7 @@ namespace ieompp
             while(v < _x_min - dx2) {
                 v += _x_length;
             }
-            while(v > _x_max + dx2) {
+            while(v > _x_min + _x_length - dx2) {
                 v -= _x_length;
             }
             Float min_dist = ((*this)[SiteIndex(0)] - v) * ((*this)[SiteIndex(0)] - v), dist;
diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 1f77c00..0fa8175 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -158,13 +158,13 @@ namespace ieompp
             while(v[0] < _x_min - dx2) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max + dx2) {
+            while(v[0] > _x_min + _x_length - dx2) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min - dy2) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max + dy2) {
+            while(v[1] > _y_min + _y_length - dy2) {
                 v[1] -= _y_length;
             }
             Float min_dist = types::dot_product(v - (*this)[Index(0)], v - (*this)[Index(0)]);
-- 
2.43.0


From 40c579e93211bb7efb588b460cffcfeda06d46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 06/55] fix: site index of a position between the last site and
 its periodic image

---
 include/ieompp/lattices/periodic_chain.hpp          | 2 +-
 include/ieompp/lattices/periodic_square_lattice.hpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 76c257b..3fe3c44 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -249,7 +249,7 @@ namespace ieompp
             while(v < _x_min) {
                 v += _x_length;
             }
-            while(v > _x_max) {
+            while(v >= _x_min + _x_length) {
                 v -= _x_length;
             }
             return SiteIndex(std::round((v - _x_min) / _dx)) % _size;
diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 0fa8175..dabaab2 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -365,17 +365,17 @@ namespace ieompp
             while(v[0] < _x_min) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max) {
+            while(v[0] >= _x_min + _x_length) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max) {
+            while(v[1] >= _y_min + _y_length) {
                 v[1] -= _y_length;
             }
-            const auto i = Index(std::round((v[0] - _x_min) / _dx));
-            const auto j = Index(std::round((v[1] - _y_min) / _dy));
+            const auto i = Index(std::round((v[0] - _x_min) / _dx)) % _size_x;
+            const auto j = Index(std::round((v[1] - _y_min) / _dy)) % _size_y;
             return i * _size_y + j;
         }
     } // namespace lattices
-- 
2.43.0


From 639ebcb7edbb8dd8266a5002fd4616a99a7d264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 07/55] fix: is_hermitian compares an element with the
 conjugate of its transpose

---
 include/ieompp/types/matrix_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 456e94d..f60e126 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -48,7 +48,7 @@ namespace ieompp
             const Index N = MatrixDimensionInfo<Matrix>::rows(m);
             for(Index i = 0; i < N; ++i) {
                 for(Index j = 0; j <= i; ++j) {
-                    if(!IsEqual(m(i, j), conjugate(m(i, j)))) {
+                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
                         return false;
                     }
                 }
-- 
2.43.0


From a96fe6bbae0c3503282a7c847ab8c5e860a610b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 08/55] fix: IsZero for matrices inspects the matrix

---
 include/ieompp/types/matrix_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index f60e126..c2a0fda 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -65,7 +65,7 @@ namespace ieompp
             const auto cols = MatrixDimensionInfo<Matrix>::columns(m);
             for(Index i = 0; i < rows; ++i) {
                 for(Index j = 0; j < cols; ++j) {
-                    if(!IsZero(t(i, j))) {
+                    if(!IsZero(m(i, j))) {
                         return false;
                     }
                 }
-- 
2.43.0


From 6ae6d39d67ad451ff5f81ecfd6f660fd6a79f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 09/55] fix: print_tuple prints every element instead of
 repeating the last one

---
 include/ieompp/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/tuple.hpp b/include/ieompp/tuple.hpp
index 55cf820..35b4df1 100644
--- a/include/ieompp/tuple.hpp
+++ b/include/ieompp/tuple.hpp
@@ -13,7 +13,7 @@ namespace ieompp
         struct TuplePrinter {
             static void print(std::ostream& strm, const Tuple& t, const std::string& delimiter)
             {
-                strm << std::get<N>(t) << delimiter;
+                strm << std::get<I>(t) << delimiter;
                 TuplePrinter<Tuple, I + 1, N>::print(strm, t, delimiter);
             }
         };
-- 
2.43.0


From 539dd7618cadfb31ad579e1ae4cb9ee3f69fa4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 10/55] fix: order_kroneckers sorts lexicographically

---
 include/ieompp/symbolic/prefactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 3d26ea4..278f6be 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -69,7 +69,7 @@ namespace ieompp
                               if(a.a < b.a) {
                                   return true;
                               }
-                              if(a.b > b.a) {
+                              if(a.a > b.a) {
                                   return false;
                               }
                               return a.b < b.b;
-- 
2.43.0


From 7567e443120080b26188e958a36301fd71af019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 11/55] fix: make_kronecker for arithmetic indices finds
 std::to_string

---
 include/ieompp/algebra/kronecker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/kronecker.hpp b/include/ieompp/algebra/kronecker.hpp
index bab6c61..1b2bac2 100644
--- a/include/ieompp/algebra/kronecker.hpp
+++ b/include/ieompp/algebra/kronecker.hpp
@@ -46,7 +46,7 @@ namespace ieompp
         typename std::enable_if<std::is_arithmetic<IndexType>::value, Kronecker>::type
         make_kronecker(const IndexType& a, const IndexType& b)
         {
-            return Kronecker{to_string(a), to_string(b)};
+            return Kronecker{std::to_string(a), std::to_string(b)};
         }
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From 7a68c47febe4378280e4b8e9f401c79e84dff0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 12/55] fix: copy_as_unique_terms compares operators with
 have_same_operators

---
 include/ieompp/algebra/term/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/list.hpp b/include/ieompp/algebra/term/list.hpp
index 4e82522..ccb6be4 100644
--- a/include/ieompp/algebra/term/list.hpp
+++ b/include/ieompp/algebra/term/list.hpp
@@ -24,7 +24,7 @@ namespace ieompp
                     lst.push_back(t);
                     continue;
                 }
-                if(pos->same_operators(t)) {
+                if(pos->have_same_operators(t)) {
                     pos->prefactor += t.prefactor;
                 } else {
                     lst.insert(pos, t);
-- 
2.43.0


From eb0878b2bcb635853528a532caa47e9f7f3b888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 13/55] fix: Term::conjugate conjugates its operators in place

---
 include/ieompp/algebra/term/term.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 31185e1..a38799e 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -24,7 +24,7 @@ namespace ieompp
             {
                 prefactor = types::conjugate(prefactor);
                 std::reverse(operators.begin(), operators.end());
-                for(auto& op : *this) {
+                for(auto& op : operators) {
                     op.conjugate();
                 }
             }
-- 
2.43.0


From 785b9a2c84f0da7f21162ece3b2675c46219cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 14/55] fix: total_spin names the index type correctly

---
 include/ieompp/algebra/term/checks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index 8885670..e0797f7 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -31,7 +31,7 @@ namespace ieompp
         int total_spin(const Term& t)
         {
             static_assert(
-                std::is_same<typename IndexType<Index, typename Term::Operator>::type, bool>::value,
+                std::is_same<typename IndexType<Index, typename Term::Operator>::Type, bool>::value,
                 "spin index must be a boolean");
 
             int spin = 0;
-- 
2.43.0


From 08951de503161f00b2fd50e457a8601dc4c0d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 15/55] fix: HasIndexOfType stops at the last index

---
 include/ieompp/algebra/operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator.hpp b/include/ieompp/algebra/operator.hpp
index 75ecd3c..e863a1c 100644
--- a/include/ieompp/algebra/operator.hpp
+++ b/include/ieompp/algebra/operator.hpp
@@ -32,7 +32,7 @@ namespace ieompp
             static_assert(IsOperator<Op>::value, "Operator must be an operator");
 
             static constexpr bool value =
-                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices>::value;
+                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices - 1>::value;
         };
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From ea4a1518259f39e86a0c8e3e29fad84497eb1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 16/55] fix: FermiJump evaluates each call with buffers of its
 own size

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 24eee95..7ec57dc 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -121,7 +121,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index b739c91..961d78c 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -61,7 +61,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
-- 
2.43.0


From b917da622766333a45637aecd074c272a231ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 17/55] fix: FermiJump coefficients are elements of the vector
 that holds them

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 7ec57dc..e16ef72 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -45,7 +45,7 @@ namespace ieompp
                 FermiJump1D(const Lattice& lattice, ExpectationValueFunction expectation_value, const Float& k_F)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 69f7057..05311ad 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -49,7 +49,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
@@ -107,7 +107,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
-- 
2.43.0


From 361ce57fa819b5f9a3ec4d8c4b57eec4b108889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 18/55] fix: SiteOccupation::expectation_value passes its
 arguments on

---
 include/ieompp/models/hubbard_real_space/site_occupation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index 4c6f0dd..c02dd58 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -234,7 +234,7 @@ namespace ieompp
                     if(b.size() == 1) {
                         return expectation_value_3_1(a, b);
                     }
-                    return expectation_value_3_3();
+                    return expectation_value_3_3(a, b);
                 }
 
                 template <typename Vector>
-- 
2.43.0


From 570d97e213b12f92201bbe7625ac1bcc5f60ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 19/55] fix: TripletList handles empty lists and drops a
 vanishing last column

---
 include/ieompp/types/triplet.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/types/triplet.hpp b/include/ieompp/types/triplet.hpp
index bbd9178..dfa0b73 100644
--- a/include/ieompp/types/triplet.hpp
+++ b/include/ieompp/types/triplet.hpp
@@ -34,6 +34,9 @@ namespace ieompp
             TripletList make_columns_unique() const
             {
                 TripletList filtered;
+                if(this->empty()) {
+                    return filtered;
+                }
                 filtered.reserve(this->size());
 
                 auto triplet = this->front();
@@ -47,12 +50,18 @@ namespace ieompp
                         triplet = *it;
                     }
                 }
-                filtered.push_back(triplet);
+                if(!types::IsZero(triplet.value)) {
+                    filtered.push_back(triplet);
+                }
+
                 return filtered;
             }
 
             bool has_unique_columns() const
             {
+                if(this->empty()) {
+                    return true;
+                }
                 for(auto it = this->begin() + 1; it != this->end(); ++it) {
                     if(it->column == (it - 1)->column) {
                         return false;
-- 
2.43.0


From e98993c5db109a526e13bf1d2da7ab248d042f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 20/55] fix: next_line returns an empty line at the end of the
 stream

---
 include/ieompp/io/line.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 5d630a5..384340b 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -22,7 +22,8 @@ namespace ieompp
                 if(!is_skippable_line(buf)) {
                     return buf;
                 }
-            } while(true);
+            } while(strm);
+            return std::string();
         }
     } // namespace io
 } // namespace ieompp
-- 
2.43.0


From 29f4008614a44cca75d22c9cd159c99a277514e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 21/55] fix: clean_output_file keeps line breaks and stops at
 the end of the file

---
 src/hubbard/include/checkpoint.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index f24d4da..4769094 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -68,12 +68,11 @@ void clean_output_file(const std::string& path, uint64_t entries)
     get_loggers().io->info("Start copying \"{}\" entries", entries);
     uint64_t counter = 0;
     std::string buffer;
-    while(counter < entries) {
-        std::getline(in_file, buffer);
+    while(counter < entries && std::getline(in_file, buffer)) {
         if(!ieompp::io::is_skippable_line(buffer)) {
             ++counter;
         }
-        out_file << buffer;
+        out_file << buffer << '\n';
     }
     out_file.flush();
     get_loggers().io->info("Finished copying entries {}", entries);
-- 
2.43.0


From 05c958982188ffd2dd152f2f9ae5ee5952c05b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 22/55] fix: matrix rows hold one element per column when
 neighbours coincide

---
 include/ieompp/models/hubbard_real_space/blaze_sparse.hpp   | 6 +++---
 .../ieompp/models/hubbard_real_space/blaze_sparse_no.hpp    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
index 8a19516..cff7a55 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
@@ -56,7 +56,7 @@ namespace ieompp
                     }
                     triplets.sort();
 
-                    for(const auto triplet : triplets) {
+                    for(const auto triplet : triplets.make_columns_unique()) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
                     matrix.finalize(row);
@@ -91,7 +91,7 @@ namespace ieompp
                                           liouvillian.U / 2.);
 
                     triplets.sort();
-                    for(const auto triplet : triplets) {
+                    for(const auto triplet : triplets.make_columns_unique()) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
                     matrix.finalize(row);
@@ -130,7 +130,7 @@ namespace ieompp
                     triplets.emplace_back(row, row, liouvillian.U / 2.);
 
                     triplets.sort();
-                    for(const auto triplet : triplets) {
+                    for(const auto triplet : triplets.make_columns_unique()) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
                     matrix.finalize(row);
diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 71f1b7d..5c3523e 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -58,7 +58,7 @@ namespace ieompp
                     }
                     triplets.sort();
 
-                    for(const auto triplet : triplets) {
+                    for(const auto triplet : triplets.make_columns_unique()) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
                     matrix.finalize(row);
@@ -97,7 +97,7 @@ namespace ieompp
                     // clang-format on
 
                     triplets.sort();
-                    for(const auto triplet : triplets) {
+                    for(const auto triplet : triplets.make_columns_unique()) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
                     matrix.finalize(row);
-- 
2.43.0


From 1b3fa757b9700dc667c35141698562b42cf06254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 23/55] fix: multiplying a monomial, term or prefactor with
 itself

---
 include/ieompp/algebra/monomial/monomial.hpp | 3 +++
 include/ieompp/algebra/term/term.hpp         | 3 +++
 include/ieompp/symbolic/prefactor.hpp        | 7 ++++---
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/algebra/monomial/monomial.hpp b/include/ieompp/algebra/monomial/monomial.hpp
index b54cac3..a0efd29 100644
--- a/include/ieompp/algebra/monomial/monomial.hpp
+++ b/include/ieompp/algebra/monomial/monomial.hpp
@@ -69,6 +69,9 @@ namespace ieompp
 
             Monomial& operator*=(const Monomial& rhs)
             {
+                if(this == &rhs) {
+                    return *this *= Monomial(rhs);
+                }
                 std::copy(rhs.begin(), rhs.end(), std::back_inserter(*this));
                 return *this;
             }
diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index a38799e..0d91d9b 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -50,6 +50,9 @@ namespace ieompp
 
             Term& operator*=(const Term& rhs)
             {
+                if(this == &rhs) {
+                    return *this *= Term(rhs);
+                }
                 prefactor *= rhs.prefactor;
                 std::copy(rhs.operators.begin(), rhs.operators.end(),
                           std::back_inserter(operators));
diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 278f6be..37d91c2 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -30,15 +30,16 @@ namespace ieompp
 
             Prefactor& operator*=(const std::vector<Kronecker>& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(kroneckers));
+                const auto factors = rhs;
+                std::copy(factors.begin(), factors.end(), std::back_inserter(kroneckers));
                 return *this;
             }
 
             template <typename Value_, typename Container_>
             Prefactor& operator*=(const Prefactor<Value_, Container_>& rhs)
             {
-                std::copy(rhs.kroneckers.begin(), rhs.kroneckers.end(),
-                          std::back_inserter(kroneckers));
+                const auto factors = rhs.kroneckers;
+                std::copy(factors.begin(), factors.end(), std::back_inserter(kroneckers));
                 value *= rhs.value;
 
                 return *this;
-- 
2.43.0


From b2550611852347aff817051de9edfb66b685ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 24/55] fix: printing monomials and terms without operators

---
 include/ieompp/algebra/monomial/io.hpp | 3 +++
 include/ieompp/algebra/term/io.hpp     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ieompp/algebra/monomial/io.hpp b/include/ieompp/algebra/monomial/io.hpp
index 56dce2b..5e28e2c 100644
--- a/include/ieompp/algebra/monomial/io.hpp
+++ b/include/ieompp/algebra/monomial/io.hpp
@@ -13,6 +13,9 @@ namespace ieompp
         template <typename Operator>
         std::ostream& operator<<(std::ostream& strm, const Monomial<Operator>& monomial)
         {
+            if(monomial.empty()) {
+                return strm;
+            }
             std::copy(monomial.begin(), --monomial.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << monomial.back();
diff --git a/include/ieompp/algebra/term/io.hpp b/include/ieompp/algebra/term/io.hpp
index c1c5d09..7f63118 100644
--- a/include/ieompp/algebra/term/io.hpp
+++ b/include/ieompp/algebra/term/io.hpp
@@ -13,6 +13,9 @@ namespace ieompp
         template <typename Prefactor, typename Operator, typename Container>
         std::ostream& operator<<(std::ostream& strm, const Term<Prefactor, Operator, Container>& t)
         {
+            if(t.operators.empty()) {
+                return strm << t.prefactor;
+            }
             strm << t.prefactor << u8" ⋅ ";
             std::copy(t.operators.begin(), --t.operators.end(),
                       std::ostream_iterator<Operator>(strm, " "));
-- 
2.43.0


From 32486d737cadc7d633ba955e7097765e2bc5d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 25/55] fix: get_index reads the indices of temporary operators
 with three or more indices

---
 include/ieompp/algebra/operator/get_index.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator/get_index.hpp b/include/ieompp/algebra/operator/get_index.hpp
index 5aaefeb..c8f5a2e 100644
--- a/include/ieompp/algebra/operator/get_index.hpp
+++ b/include/ieompp/algebra/operator/get_index.hpp
@@ -4,6 +4,7 @@
 #include "ieompp/algebra/operator/operator.hpp"
 
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -65,7 +66,7 @@ namespace ieompp
         constexpr typename std::tuple_element<I, typename Operator<IndexTypes...>::Indices>::type&&
         get_index(Operator<IndexTypes...>&& op)
         {
-            return std::get<I>(op.indices);
+            return std::get<I>(std::move(op.indices));
         }
 
         template <std::size_t I, typename Index>
-- 
2.43.0


From bdb5afe2d4ebe74e61426891a8fcd9d906ac5fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 26/55] fix: swapped interaction elements in the one-operator
 rows of the normal-ordered matrix

[n_up n_down, c_up^+] = N[c_up^+ c_down^+ c_down] + <n_down> c_up^+: the expectation value belongs to the
diagonal element.
---
 include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 5c3523e..42cf682 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -92,8 +92,8 @@ namespace ieompp
                     }
 
                     // clang-format off
-                    triplets.emplace_back(row, row, liouvillian.U);
-                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, row, liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U);
                     // clang-format on
 
                     triplets.sort();
-- 
2.43.0


From 6aac42711305588b81560347bdc7a60b76b90b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 27/55] fix: use the conjugate expectation value where Wick's
 theorem contracts c c^+

The contractions of the third operator with the first and of the second with the first in these
terms are <c c^+> = delta - <c^+ c>.
---
 .../ieompp/models/hubbard_real_space/blaze_sparse_no.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 42cf682..89f62ca 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -143,7 +143,7 @@ namespace ieompp
                     // clang-format off
                     triplets.emplace_back(row, r1, liouvillian.U * expectation_value(op2.index1, op1.index1) * expectation_value_conj(op3.index1, op1.index1));
                     triplets.emplace_back(row, r2, liouvillian.U * expectation_value_conj(op2.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
-                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
+                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value_conj(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
                     // clang-format on
 
                     // 3-operator monomials
@@ -152,8 +152,8 @@ namespace ieompp
                     triplets.emplace_back(row, basis.get_3op_index(r1, r1, r3), -liouvillian.U * expectation_value(op2.index1, op1.index1));
                     triplets.emplace_back(row, basis.get_3op_index(r1, r2, r1), liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     if(r2 != r3) {
-                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value(op2.index1, op1.index1));
-                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value(op3.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value_conj(op2.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     }
                     // clang-format on
 
-- 
2.43.0


From bc449dfe7f1ee3e860707dde60815d36bf5ddc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 28/55] fix: integration step of function matrices does not
 compile with assertions

MatrixDimensionInfo is not specialised for FunctionMatrix; use its own accessor.
---
 include/ieompp/ode/rk4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/ode/rk4.hpp b/include/ieompp/ode/rk4.hpp
index fbe14f6..290cadc 100644
--- a/include/ieompp/ode/rk4.hpp
+++ b/include/ieompp/ode/rk4.hpp
@@ -52,7 +52,7 @@ namespace ieompp
             step(const Matrix& m, Vector& u) const
             {
                 assert(types::is_quadratic(m));
-                assert(types::MatrixDimensionInfo<Matrix>::rows(m) == _dimension);
+                assert(m.rows() == _dimension);
                 assert(types::MatrixDimensionInfo<Vector>::columns(u) == 1);
                 assert(types::MatrixDimensionInfo<Vector>::rows(u) == _dimension);
 
-- 
2.43.0


From cb1782ecf33bbb70778c2ec778617a6157dead71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 29/55] fix: is_skippable_line handles carriage returns and
 long lines

---
 include/ieompp/io/line.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 384340b..648b59f 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -2,7 +2,7 @@
 #define IEOMPP_IO_LINE_HPP_
 
 #include <istream>
-#include <regex>
+#include <string>
 
 namespace ieompp
 {
@@ -10,8 +10,8 @@ namespace ieompp
     {
         bool is_skippable_line(const std::string& str)
         {
-            static const std::regex reg(R"(^\s*(?:#.*)?$)");
-            return std::regex_match(str, reg);
+            const auto first = str.find_first_not_of(" \t\n\v\f\r");
+            return (first == std::string::npos) || (str[first] == '#');
         }
 
         std::string next_line(std::istream& strm)
-- 
2.43.0


From 8102bb1a8c4cda1c3e629931a1e74de52f03ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 30/55] fix: Platform::user works when LOGNAME is not set

---
 include/ieompp/platform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 8c543db..888b23b 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -94,7 +94,8 @@ namespace ieompp
         {
 #if BOOST_OS_WINDOWS
 #else
-            return std::string(std::getenv("LOGNAME"));
+            const char* name = std::getenv("LOGNAME");
+            return std::string((name != nullptr) ? name : "unknown");
 #endif
         }
 
-- 
2.43.0


From f78e9bb61e9a8281da9d0b31883c388e2c6e1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 31/55] fix: the output path given in a response file is used

---
 src/hubbard/include/application.hpp | 11 ++++++++---
 src/hubbard/include/cli.hpp         |  2 --
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index 40a5c9c..5e25565 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -40,6 +40,12 @@ struct Application {
             std::exit(1);
         }
 
+        if(variables.count("response_file") != 0u) {
+            // read simulation parameters from response file
+            read_response_file(variables["response_file"].as<std::string>(), variables,
+                               Application::options_description);
+        }
+
         output_path   = variables["out"].as<std::string>();
         response_path = boost::filesystem::change_extension(output_path, ".rsp").string();
         log_path      = boost::filesystem::change_extension(output_path, ".log").string();
@@ -56,9 +62,8 @@ struct Application {
         }
 
         if(variables.count("response_file") != 0u) {
-            // read simulation parameters from response file
-            read_response_file(variables["response_file"].as<std::string>(), variables,
-                               Application::options_description);
+            get_loggers().main->info("Simulation parameters read from response file \"{}\"",
+                                     variables["response_file"].as<std::string>());
         } else {
             // write a response file with simulation parameters
             get_loggers().io->info("Write response file \"{}\"", response_path);
diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 85ef551..620fc5e 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -28,7 +28,6 @@ auto make_value(const T& default_value)
 void read_response_file(const std::string& path, VariablesMap& vm,
                         const OptionsDescription& description)
 {
-    get_loggers().main->info("Reading response file \"{}\"", path);
     std::ifstream file(path.c_str());
     std::string buf;
     std::vector<std::string> args;
@@ -39,7 +38,6 @@ void read_response_file(const std::string& path, VariablesMap& vm,
             boost::program_options::command_line_parser(args).options(description).run(), vm);
     } while(!file.eof());
     file.close();
-    get_loggers().main->info("Finish reading response file \"{}\"", path);
 }
 
 std::vector<std::pair<std::string, std::string>>
-- 
2.43.0


From a56abf2376e5c393b161edd956e2a3fb3649d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 32/55] fix: the header records the options read from a
 response file

---
 src/hubbard/include/application.hpp | 18 +++++++++++++++---
 src/hubbard/include/cli.hpp         | 18 ++++++++++++++++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index 5e25565..3965619 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -1,6 +1,7 @@
 #ifndef SRC_HUBBARD_APPLICATION_HPP_
 #define SRC_HUBBARD_APPLICATION_HPP_
 
+#include <algorithm>
 #include <cstdlib>
 #include <iostream>
 #include <string>
@@ -27,7 +28,7 @@ struct Application {
 
     Application(int argc, char** argv)
     {
-        const auto all_options =
+        auto all_options =
             parse_command_line_options(argc, argv, options_description, variables);
 
         if(variables.count("help")) {
@@ -42,8 +43,19 @@ struct Application {
 
         if(variables.count("response_file") != 0u) {
             // read simulation parameters from response file
-            read_response_file(variables["response_file"].as<std::string>(), variables,
-                               Application::options_description);
+            const auto file_options =
+                read_response_file(variables["response_file"].as<std::string>(), variables,
+                                   Application::options_description);
+            for(const auto& option : file_options) {
+                const auto pos = std::find_if(
+                    all_options.begin(), all_options.end(),
+                    [&option](const auto& other) { return other.first == option.first; });
+                if(pos != all_options.end()) {
+                    pos->second = option.second;
+                } else {
+                    all_options.push_back(option);
+                }
+            }
         }
 
         output_path   = variables["out"].as<std::string>();
diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 620fc5e..cd09f59 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -25,9 +25,11 @@ auto make_value(const T& default_value)
     return boost::program_options::value<T>()->default_value(default_value);
 }
 
-void read_response_file(const std::string& path, VariablesMap& vm,
-                        const OptionsDescription& description)
+// returns the options that take effect, i.e. those not given on the command line
+std::vector<std::pair<std::string, std::string>>
+read_response_file(const std::string& path, VariablesMap& vm, const OptionsDescription& description)
 {
+    const VariablesMap given = vm;
     std::ifstream file(path.c_str());
     std::string buf;
     std::vector<std::string> args;
@@ -38,6 +40,18 @@ void read_response_file(const std::string& path, VariablesMap& vm,
             boost::program_options::command_line_parser(args).options(description).run(), vm);
     } while(!file.eof());
     file.close();
+
+    std::vector<std::pair<std::string, std::string>> effective_options;
+    const auto options =
+        boost::program_options::command_line_parser(args).options(description).run();
+    for(const auto& option : options.options) {
+        const auto key = option.string_key;
+        if(key.empty() || (given.count(key) != 0u && !given[key].defaulted())) continue;
+        for(const auto& value : option.value) {
+            effective_options.push_back(std::make_pair(key, value));
+        }
+    }
+    return effective_options;
 }
 
 std::vector<std::pair<std::string, std::string>>
-- 
2.43.0


From 72756b8c3f16c44e47e9da71220b5e20c40c6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 33/55] fix: kinetic theory program uses filling and Fermi
 momentum of the half-filled chain

---
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index f8e670f..80ba530 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -59,7 +59,7 @@ int main()
     }
 
     const hubbard::ExpectationValue1DHalfFilled<double, decltype(lattice)> expectation_value(
-        lattice, 1., 0.5);
+        lattice, 0.5, ieompp::HalfPi<double>::value);
 
     vector<vector<complex<double>>> results;
 #pragma omp parallel
-- 
2.43.0


From f56cac4f973ab6a97a28bed4b88401d712fc8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 34/55] fix: SpatialIndexType of two-dimensional Hubbard
 operators

---
 include/ieompp/models/hubbard/operator_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard/operator_traits.hpp b/include/ieompp/models/hubbard/operator_traits.hpp
index bbc00b3..bf8bba6 100644
--- a/include/ieompp/models/hubbard/operator_traits.hpp
+++ b/include/ieompp/models/hubbard/operator_traits.hpp
@@ -64,7 +64,8 @@ namespace ieompp
                               "Operator must be of 1d or 2d Hubbard type!");
 
                 using Type = typename std::
-                    conditional<Is1dHubbardOperator<Operator>::value, typename Operator::Index1,
+                    conditional<Is1dHubbardOperator<Operator>::value,
+                                typename algebra::IndexType<0, Operator>::Type,
                                 std::pair<typename algebra::IndexType<0, Operator>::Type,
                                           typename algebra::IndexType<1, Operator>::Type>>::type;
             };
-- 
2.43.0


From 8c111b90e4c06f451fcae9cf10e95636de3d5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 35/55] fix: two simulation programs ran under the name of
 another program

---
 src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp | 2 +-
 src/hubbard/hubbard_real_2d_rk4_jump.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp b/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp
index 5c916ac..2aeba0f 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp
@@ -12,7 +12,7 @@ namespace hubbard = ieompp::models::hubbard_real_space;
 
 int main(int argc, char** argv)
 {
-    Application::name        = "hubbard_real_1d_rk4_coefficients";
+    Application::name        = "hubbard_real_1d_kinetic_rk4_coefficients";
     Application::description = "Calculate coefficients for the 1d Hubbard model";
     Application::add_default_options();
 
diff --git a/src/hubbard/hubbard_real_2d_rk4_jump.cpp b/src/hubbard/hubbard_real_2d_rk4_jump.cpp
index fdc370a..d239f11 100644
--- a/src/hubbard/hubbard_real_2d_rk4_jump.cpp
+++ b/src/hubbard/hubbard_real_2d_rk4_jump.cpp
@@ -14,7 +14,7 @@ namespace hubbard = ieompp::models::hubbard_real_space;
 
 int main(int argc, char** argv)
 {
-    Application::name        = "hubbard_real_2d_rk4";
+    Application::name        = "hubbard_real_2d_rk4_jump";
     Application::description = "Calculate <n_{0,↑}>(t) for the 2d Hubbard model";
     Application::add_default_options();
 
-- 
2.43.0


From 9d82fe267d78eda067bd8a46532507f39148b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 36/55] fix: a program without OpenMP has one thread in its
 team, not zero

---
 include/ieompp/openmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/openmp.hpp b/include/ieompp/openmp.hpp
index fc1c895..0cebd1a 100644
--- a/include/ieompp/openmp.hpp
+++ b/include/ieompp/openmp.hpp
@@ -9,7 +9,7 @@
 
 #define omp_get_thread_num() 0
 #define omp_get_max_threads() 1
-#define omp_get_num_threads() 0
+#define omp_get_num_threads() 1
 
 #endif
 
-- 
2.43.0


From 0500c68e5fdcd2a0d9d289c11bc6ab67063ec1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 37/55] fix: the log tells the number of lattice sites

---
 src/hubbard/real_space/periodic_chain.hpp          | 2 +-
 src/hubbard/real_space/periodic_square_lattice.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hubbard/real_space/periodic_chain.hpp b/src/hubbard/real_space/periodic_chain.hpp
index 53a47fb..819b3d3 100644
--- a/src/hubbard/real_space/periodic_chain.hpp
+++ b/src/hubbard/real_space/periodic_chain.hpp
@@ -7,7 +7,7 @@
 
 auto init_lattice(uint64_t N, double dx = 1.)
 {
-    get_loggers().main->info("Init periodic chain with N = {} sites");
+    get_loggers().main->info("Init periodic chain with N = {} sites", N);
     ieompp::lattices::PeriodicChain<double> chain(N, dx);
     get_loggers().main->info("Finished setting up lattice");
     return chain;
diff --git a/src/hubbard/real_space/periodic_square_lattice.hpp b/src/hubbard/real_space/periodic_square_lattice.hpp
index 838a5ed..4392067 100644
--- a/src/hubbard/real_space/periodic_square_lattice.hpp
+++ b/src/hubbard/real_space/periodic_square_lattice.hpp
@@ -7,7 +7,7 @@
 
 auto init_lattice(uint64_t Nx, uint64_t Ny, double dx = 1., double dy = 1.)
 {
-    get_loggers().main->info("Init periodic square lattice with N = {} sites");
+    get_loggers().main->info("Init periodic square lattice with N = {} sites", Nx * Ny);
     ieompp::lattices::PeriodicSquareLattice<double> chain(Nx, Ny, dx, dy);
     get_loggers().main->info("Finished setting up lattice");
     return chain;
-- 
2.43.0


From 88af271d6f5ced09e29b71acfb08d7ac9ce69a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 38/55] fix: the log gives the filling of a matrix in percent,
 as it says

---
 src/hubbard/momentum_space/momentum_space.hpp | 2 +-
 src/hubbard/real_space/matrix.hpp             | 4 ++--
 src/hubbard/real_space/matrix_no.hpp          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hubbard/momentum_space/momentum_space.hpp b/src/hubbard/momentum_space/momentum_space.hpp
index ccc5152..6724308 100644
--- a/src/hubbard/momentum_space/momentum_space.hpp
+++ b/src/hubbard/momentum_space/momentum_space.hpp
@@ -15,7 +15,7 @@ auto compute_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lat
     ieompp::models::hubbard_momentum_space::init_matrix(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({:.5f}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * double(M.nonZeros()) / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
diff --git a/src/hubbard/real_space/matrix.hpp b/src/hubbard/real_space/matrix.hpp
index 24ab5dd..6a367c5 100644
--- a/src/hubbard/real_space/matrix.hpp
+++ b/src/hubbard/real_space/matrix.hpp
@@ -14,7 +14,7 @@ auto compute_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lat
     ieompp::models::hubbard_real_space::init_matrix(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * double(M.nonZeros()) / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
@@ -30,7 +30,7 @@ auto compute_kinetic_matrix(const Liouvillian& L, const Basis& basis, const Latt
     ieompp::models::hubbard_real_space::init_kinetic_matrix(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({:.5f}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * double(M.nonZeros()) / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
diff --git a/src/hubbard/real_space/matrix_no.hpp b/src/hubbard/real_space/matrix_no.hpp
index 3cdb82e..ec82890 100644
--- a/src/hubbard/real_space/matrix_no.hpp
+++ b/src/hubbard/real_space/matrix_no.hpp
@@ -15,7 +15,7 @@ auto compute_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lat
     ieompp::models::hubbard_real_space::init_matrix_no(L, M, basis, lattice, ev);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * double(M.nonZeros()) / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
@@ -31,7 +31,7 @@ auto compute_kinetic_matrix(const Liouvillian& L, const Basis& basis, const Latt
     ieompp::models::hubbard_real_space::init_kinetic_matrix_no(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({:.5f}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * double(M.nonZeros()) / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
-- 
2.43.0


From a0b626a869126d14be105784f05ff4545f6797d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:55 +0000
Subject: [PATCH 39/55] fix: printing a function matrix left the stream with
 one digit and signs

---
 include/ieompp/types/function_matrix.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ieompp/types/function_matrix.hpp b/include/ieompp/types/function_matrix.hpp
index bcadade..d0d966c 100644
--- a/include/ieompp/types/function_matrix.hpp
+++ b/include/ieompp/types/function_matrix.hpp
@@ -79,6 +79,8 @@ namespace ieompp
         template <typename Scalar, typename Index>
         std::ostream& operator<<(std::ostream& strm, const FunctionMatrix<Scalar, Index>& matrix)
         {
+            const auto flags     = strm.flags();
+            const auto precision = strm.precision();
             strm << std::fixed << std::setprecision(1) << std::showpos;
             for(Index row = 0; row < matrix.rows(); ++row) {
                 for(Index col = 0; col < matrix.cols(); ++col) {
@@ -86,6 +88,8 @@ namespace ieompp
                 }
                 strm << '\n';
             }
+            strm.flags(flags);
+            strm.precision(precision);
             return strm;
         }
 
-- 
2.43.0


From ebab95045c5ee8f2c4bcb27a935bca9beff6ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 40/55] fix: the traits of Eigen types have the members the
 library uses

---
 include/ieompp/types/eigen/dot_product.hpp |  2 +-
 include/ieompp/types/eigen/traits.hpp      | 25 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/ieompp/types/eigen/dot_product.hpp b/include/ieompp/types/eigen/dot_product.hpp
index 54b857e..a3924c5 100644
--- a/include/ieompp/types/eigen/dot_product.hpp
+++ b/include/ieompp/types/eigen/dot_product.hpp
@@ -9,7 +9,7 @@ namespace ieompp
     {
         template <typename T>
         typename std::enable_if<ieompp::types::IsEigenMatrix<T>::value,
-                                typename ieompp::types::ScalarType<T>::type>::type
+                                typename ieompp::types::ScalarType<T>::Type>::type
         dot_product(const T& a, const T& b)
         {
             return a.dot(b);
diff --git a/include/ieompp/types/eigen/traits.hpp b/include/ieompp/types/eigen/traits.hpp
index 535dc85..e45552c 100644
--- a/include/ieompp/types/eigen/traits.hpp
+++ b/include/ieompp/types/eigen/traits.hpp
@@ -82,22 +82,39 @@ namespace ieompp
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
         struct ScalarType<Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>> {
-            using type = Scalar;
+            using Type = Scalar;
         };
 
         template <typename Scalar, int Options, typename Index>
         struct ScalarType<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            using type = Scalar;
+            using Type = Scalar;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
         struct IndexType<Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>> {
-            using type = int;
+            using Type = int;
         };
 
         template <typename Scalar, int Options, typename Index>
         struct IndexType<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            using type = Index;
+            using Type = Index;
+        };
+
+
+        template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
+        struct MatrixDimensionInfo<Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>> {
+            using Matrix = Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>;
+
+            static Eigen::Index rows(const Matrix& m) { return m.rows(); }
+            static Eigen::Index columns(const Matrix& m) { return m.cols(); }
+        };
+
+        template <typename Scalar, int Options, typename Index>
+        struct MatrixDimensionInfo<Eigen::SparseMatrix<Scalar, Options, Index>> {
+            using Matrix = Eigen::SparseMatrix<Scalar, Options, Index>;
+
+            static Eigen::Index rows(const Matrix& m) { return m.rows(); }
+            static Eigen::Index columns(const Matrix& m) { return m.cols(); }
         };
 
 
-- 
2.43.0


From e434f91bf7953d61b09c6ae82bb01031ada8d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 41/55] fix: a sparse Eigen matrix is no vector

---
 include/ieompp/types/eigen/traits.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/types/eigen/traits.hpp b/include/ieompp/types/eigen/traits.hpp
index e45552c..3fe3ee4 100644
--- a/include/ieompp/types/eigen/traits.hpp
+++ b/include/ieompp/types/eigen/traits.hpp
@@ -47,7 +47,7 @@ namespace ieompp
 
         template <typename Scalar, int Options, typename Index>
         struct IsVector<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            static constexpr bool value = true;
+            static constexpr bool value = false;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
@@ -62,7 +62,7 @@ namespace ieompp
 
         template <typename Scalar, int Options, typename Index>
         struct IsRowVector<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            static constexpr bool value = true;
+            static constexpr bool value = false;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
@@ -77,7 +77,7 @@ namespace ieompp
 
         template <typename Scalar, int Options, typename Index>
         struct IsColumnVector<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            static constexpr bool value = true;
+            static constexpr bool value = false;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
-- 
2.43.0


From 386a9c7f2412e8a28d4e5e581091d82202c70ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 42/55] fix: init and init_symmetric of Eigen matrices can be
 called

---
 include/ieompp/types/eigen/init.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/types/eigen/init.hpp b/include/ieompp/types/eigen/init.hpp
index b12ec0b..30880f5 100644
--- a/include/ieompp/types/eigen/init.hpp
+++ b/include/ieompp/types/eigen/init.hpp
@@ -2,6 +2,9 @@
 #define IEOMPP_TYPES_EIGEN_INIT_HPP_
 
 #include "ieompp/types/eigen/traits.hpp"
+#include "ieompp/types/number.hpp"
+
+#include <functional>
 
 namespace ieompp
 {
@@ -10,7 +13,7 @@ namespace ieompp
         template <typename Matrix>
         typename std::enable_if<IsEigenSparseMatrix<Matrix>::value, void>::type
         init(Matrix& m, typename IndexType<Matrix>::Type rows,
-             typename IndexType<Matrix>::index cols,
+             typename IndexType<Matrix>::Type cols,
              std::function<typename ScalarType<Matrix>::Type(typename IndexType<Matrix>::Type,
                                                              typename IndexType<Matrix>::Type)>
                  f)
@@ -29,8 +32,8 @@ namespace ieompp
         template <typename Matrix>
         typename std::enable_if<IsEigenSparseMatrix<Matrix>::value, void>::type init_symmetric(
             Matrix& m, typename IndexType<Matrix>::Type rows,
-            std::function<typename ScalarType<Matrix>::scalar(typename IndexType<Matrix>::Type,
-                                                              typename IndexType<Matrix>::Type)>
+            std::function<typename ScalarType<Matrix>::Type(typename IndexType<Matrix>::Type,
+                                                            typename IndexType<Matrix>::Type)>
                 f)
         {
             using Index = typename IndexType<Matrix>::Type;
@@ -57,7 +60,7 @@ namespace ieompp
                                                              typename IndexType<Matrix>::Type)>
                  f)
         {
-            using Index = typename IndexType<Matrix>::Index;
+            using Index = typename IndexType<Matrix>::Type;
 
             m = Matrix::Zero(rows, cols);
             for(Index i = 0; i < rows; ++i) {
-- 
2.43.0


From dccebea5c4c4b43f5ac905a0d46a900673a19b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 43/55] fix: types/eigen.hpp includes a header that needs one
 that does not exist

---
 include/ieompp/types/eigen.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/ieompp/types/eigen.hpp b/include/ieompp/types/eigen.hpp
index 4f3d274..a1b3d9e 100644
--- a/include/ieompp/types/eigen.hpp
+++ b/include/ieompp/types/eigen.hpp
@@ -2,7 +2,6 @@
 #define IEOMPP_TYPES_EIGEN_HPP_
 
 #include "ieompp/string.hpp"
-#include "ieompp/types/eigen/description.hpp"
 #include "ieompp/types/eigen/dot_product.hpp"
 #include "ieompp/types/eigen/init.hpp"
 #include "ieompp/types/eigen/traits.hpp"
-- 
2.43.0


From ea63191a8bc3068ae2221ff011fa39c025a26c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 44/55] fix: reading and writing sparse Eigen matrices compiles

---
 include/ieompp/io/eigen/sparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/io/eigen/sparse.hpp b/include/ieompp/io/eigen/sparse.hpp
index 9ef0fec..176b12b 100644
--- a/include/ieompp/io/eigen/sparse.hpp
+++ b/include/ieompp/io/eigen/sparse.hpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <istream>
 #include <ostream>
+#include <regex>
 #include <sstream>
 #include <string>
 
@@ -20,7 +21,7 @@ namespace ieompp
         typename std::enable_if<types::IsEigenSparseMatrix<Matrix>::value, void>::type
         write_matrix(std::ostream& strm, const Matrix& m)
         {
-            using Index = typename types::index_type<Matrix>::type;
+            using Index = typename types::IndexType<Matrix>::Type;
 
             for(Index i = 0; i < m.outerSize(); ++i) {
                 for(typename Matrix::InnerIterator it(m, i); it; ++it) {
-- 
2.43.0


From 200930fe0faae894d0ed2a28d269612e176dced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 45/55] fix: read_matrix reserves memory for the rows of
 row-major matrices

---
 include/ieompp/io/eigen/sparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/io/eigen/sparse.hpp b/include/ieompp/io/eigen/sparse.hpp
index 176b12b..49c479c 100644
--- a/include/ieompp/io/eigen/sparse.hpp
+++ b/include/ieompp/io/eigen/sparse.hpp
@@ -46,7 +46,7 @@ namespace ieompp
             auto rows = std::strtoul(match[1].str().c_str(), nullptr, 10);
             auto cols = std::strtoul(match[2].str().c_str(), nullptr, 10);
             m         = Matrix(rows, cols);
-            m.reserve(Eigen::VectorXi::Constant(cols, nnz_per_inner_vec));
+            m.reserve(Eigen::VectorXi::Constant(m.outerSize(), nnz_per_inner_vec));
 
             using Index  = typename Matrix::Index;
             using Scalar = typename Matrix::Scalar;
-- 
2.43.0


From e39955661637050643ffd18d51b18a342cc2b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 46/55] fix: read_matrix uses uninitialised indices when
 entries are missing

---
 include/ieompp/io/eigen/sparse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/io/eigen/sparse.hpp b/include/ieompp/io/eigen/sparse.hpp
index 49c479c..1adcb34 100644
--- a/include/ieompp/io/eigen/sparse.hpp
+++ b/include/ieompp/io/eigen/sparse.hpp
@@ -58,7 +58,9 @@ namespace ieompp
             Scalar val;
             for(Index n = 0; n < num_entries; ++n) {
                 std::istringstream ss(next_line(strm));
-                ss >> i >> j >> val;
+                if(!(ss >> i >> j >> val)) {
+                    THROW(IOException, "Expected a line with row, column and value of an entry");
+                }
                 m.insert(i, j) = val;
             }
         }
-- 
2.43.0


From a4d98d4a6417e1c2fe20c81589578d025e47fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 47/55] fix: get_external.sh unpacks Eigen unverified if the
 checksum could not be computed

---
 tools/get_external.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/get_external.sh b/tools/get_external.sh
index eff084f..d6c2cb7 100755
--- a/tools/get_external.sh
+++ b/tools/get_external.sh
@@ -19,7 +19,7 @@ if [ ! -e external/eigen.tar.gz ]; then
     fi
 fi
 EIGEN_DOWNLOADED_SHA512=`/usr/bin/sha512sum external/eigen.tar.gz | cut -d " " -f 1`
-if [ $EIGEN_SHA512 != $EIGEN_DOWNLOADED_SHA512 ]; then
+if [ "$EIGEN_SHA512" != "$EIGEN_DOWNLOADED_SHA512" ]; then
     echo "Failed to verify downloaded Eigen by sha512" 1>&2
     exit 1
 fi
-- 
2.43.0


From c10e8dfb95d62a6524a1cab384e36c8c1b25b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:11 +0000
Subject: [PATCH 48/55] fix: commutate terms that are elements of the result
 container

Appending the first result could move the container's elements, so that the
operators of the arguments were read from freed memory. Work on copies.
---
 include/ieompp/algebra/commutator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/algebra/commutator.hpp b/include/ieompp/algebra/commutator.hpp
index 3942050..40a1675 100644
--- a/include/ieompp/algebra/commutator.hpp
+++ b/include/ieompp/algebra/commutator.hpp
@@ -27,10 +27,11 @@ namespace ieompp
             static_assert(std::is_same<typename Container::value_type, Term>::value,
                           "Container type must hold values of the same type as Term");
 
-            const auto& a_ops = a.operators;
-            const auto& b_ops = b.operators;
-            const auto n      = a_ops.size();
-            const auto m      = b_ops.size();
+            // a and b may be elements of c, which move when c grows
+            const auto a_ops = a.operators;
+            const auto b_ops = b.operators;
+            const auto n     = a_ops.size();
+            const auto m     = b_ops.size();
 
             assert(m * n % 2 == 0);
 
-- 
2.43.0


From d389023d8c8cdf951a05c031077313ba77429fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:01 +0000
Subject: [PATCH 49/55] fix: refuse a response file that cannot be read

---
 src/hubbard/include/cli.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index cd09f59..7834143 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -3,6 +3,7 @@
 
 #include <fstream>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -38,7 +39,10 @@ read_response_file(const std::string& path, VariablesMap& vm, const OptionsDescr
         args.push_back(buf);
         boost::program_options::store(
             boost::program_options::command_line_parser(args).options(description).run(), vm);
-    } while(!file.eof());
+    } while(file.good());
+    if(!file.eof()) {
+        throw std::runtime_error("Cannot read response file \"" + path + "\"");
+    }
     file.close();
 
     std::vector<std::pair<std::string, std::string>> effective_options;
-- 
2.43.0


From b91d1bb529f6672b7adcafb053f1bf485c46bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:12 +0000
Subject: [PATCH 50/55] fix: a stream keeps its format when a matrix element
 throws while a function matrix is printed

---
 include/ieompp/types/function_matrix.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/types/function_matrix.hpp b/include/ieompp/types/function_matrix.hpp
index d0d966c..b300543 100644
--- a/include/ieompp/types/function_matrix.hpp
+++ b/include/ieompp/types/function_matrix.hpp
@@ -79,8 +79,23 @@ namespace ieompp
         template <typename Scalar, typename Index>
         std::ostream& operator<<(std::ostream& strm, const FunctionMatrix<Scalar, Index>& matrix)
         {
-            const auto flags     = strm.flags();
-            const auto precision = strm.precision();
+            // the element function may throw, the stream gets its format back all the same
+            struct FormatGuard {
+                std::ostream& strm;
+                const std::ios_base::fmtflags flags;
+                const std::streamsize precision;
+
+                explicit FormatGuard(std::ostream& s)
+                    : strm(s), flags(s.flags()), precision(s.precision())
+                {
+                }
+                ~FormatGuard()
+                {
+                    strm.flags(flags);
+                    strm.precision(precision);
+                }
+            } guard(strm);
+
             strm << std::fixed << std::setprecision(1) << std::showpos;
             for(Index row = 0; row < matrix.rows(); ++row) {
                 for(Index col = 0; col < matrix.cols(); ++col) {
@@ -88,8 +103,6 @@ namespace ieompp
                 }
                 strm << '\n';
             }
-            strm.flags(flags);
-            strm.precision(precision);
             return strm;
         }
 
-- 
2.43.0


From 3cf5a8b899e5b7cdf58a33e72d0823869864dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:59 +0000
Subject: [PATCH 51/55] fix: a run whose output or response file cannot be
 written no longer reports success

---
 src/hubbard/include/application.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index 3965619..d5635dd 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -80,6 +80,7 @@ struct Application {
             // write a response file with simulation parameters
             get_loggers().io->info("Write response file \"{}\"", response_path);
             std::ofstream file(response_path.c_str());
+            file.exceptions(std::ofstream::failbit | std::ofstream::badbit);
             for(const auto& opt : all_options) {
                 file << "--" << opt.first << '=' << opt.second << '\n';
             }
@@ -88,6 +89,8 @@ struct Application {
         }
 
         get_loggers().io->info("Opening output file \"{}\"", output_path);
+        // a run that cannot write its results must not go on and report success
+        output_file.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         output_file.open(output_path.c_str());
         get_loggers().io->info("File \"{}\" is now open", output_path);
 
-- 
2.43.0


From 598590f960708268e216300b714b3eb0b1acd6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:59 +0000
Subject: [PATCH 52/55] fix: a matrix file that cannot be written is reported

---
 src/hubbard/include/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hubbard/include/common.hpp b/src/hubbard/include/common.hpp
index f0086f1..923a4e3 100644
--- a/src/hubbard/include/common.hpp
+++ b/src/hubbard/include/common.hpp
@@ -27,6 +27,7 @@ void write_matrix_file(const std::string& path,
     get_loggers().io->info("Write matrix {}x{} matrix to \"{}\"", matrix.rows(), matrix.columns(),
                            path);
     std::ofstream strm(path.c_str(), std::ofstream::binary);
+    strm.exceptions(std::ofstream::failbit | std::ofstream::badbit);
     blaze::Archive<std::ofstream> archive(strm);
     archive << matrix;
     strm.flush();
-- 
2.43.0


From 41b9ff0b1785d98d85164c13ec791f90b5c403d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:59 +0000
Subject: [PATCH 53/55] fix: checkpoints and cleaned output files that cannot
 be written or read are reported

---
 src/hubbard/include/checkpoint.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index 4769094..9860a85 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -2,6 +2,7 @@
 #define SRC_HUBBARD_CHECKOINT_HPP_
 
 #include <fstream>
+#include <stdexcept>
 #include <string>
 
 #include <boost/filesystem.hpp>
@@ -23,6 +24,7 @@ void write_checkpoint_file(const std::string& prefix,
     get_loggers().io->info("Create checkpoint file \"{}\" using vector with {} elements", path,
                            vector.size());
     std::ofstream strm(path.c_str(), std::ofstream::binary);
+    strm.exceptions(std::ofstream::failbit | std::ofstream::badbit);
     blaze::Archive<std::ofstream> archive(strm);
     archive << vector;
     strm.close();
@@ -59,9 +61,14 @@ void clean_output_file(const std::string& path, uint64_t entries)
 
     get_loggers().io->info("Open old output file \"{}\"", path);
     std::ifstream in_file((path + ".bak").c_str());
+    in_file.exceptions(std::ifstream::badbit);
+    if(!in_file) {
+        throw std::runtime_error("Cannot read \"" + path + ".bak\"");
+    }
 
     get_loggers().io->info("Open new output \"{}\" file for writing", path);
     std::ofstream out_file(path);
+    out_file.exceptions(std::ofstream::failbit | std::ofstream::badbit);
 
     get_loggers().io->info("Finished opening both files");
 
-- 
2.43.0


From a8b7f28e242bc5c174b38e0c58c37ce48a81d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:59 +0000
Subject: [PATCH 54/55] fix: the programs that write a table fail when the
 table cannot be written

---
 src/hubbard/hubbard_dispersion_1d.cpp          | 1 +
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 1 +
 src/hubbard/hubbard_trivial.cpp                | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hubbard/hubbard_dispersion_1d.cpp b/src/hubbard/hubbard_dispersion_1d.cpp
index 2472d2b..2701f81 100644
--- a/src/hubbard/hubbard_dispersion_1d.cpp
+++ b/src/hubbard/hubbard_dispersion_1d.cpp
@@ -12,6 +12,7 @@ int main()
     const auto dispersion = models::hubbard::make_dispersion(brillouin_zone, lattice, 1.);
 
     ofstream file("dispersion.txt");
+    file.exceptions(ofstream::failbit | ofstream::badbit);
     for(const auto& site : brillouin_zone) {
         file << brillouin_zone[site] << '\t' << dispersion(site) << '\n';
     }
diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index 80ba530..120e1c7 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -82,6 +82,7 @@ int main()
     }
 
     ofstream file("theory.txt", ofstream::trunc);
+    file.exceptions(ofstream::failbit | ofstream::badbit);
     for(uint64_t step = 0; step < steps; ++step) {
         complex<double> val = 0.;
         for(auto &result : results) {
diff --git a/src/hubbard/hubbard_trivial.cpp b/src/hubbard/hubbard_trivial.cpp
index 1f02f9c..8e7718d 100644
--- a/src/hubbard/hubbard_trivial.cpp
+++ b/src/hubbard/hubbard_trivial.cpp
@@ -69,6 +69,7 @@ int main()
     ieompp::ode::RK4<double> rk4(4, dt);
 
     ofstream file("trivial.txt");
+    file.exceptions(ofstream::failbit | ofstream::badbit);
     for(uint64_t i = 0; i < steps; ++i) {
         write_state(file, i * dt, h);
         rk4.step(M, h);
-- 
2.43.0


From f2215beb63e809dde3432096987a845f8f4228ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:26 +0000
Subject: [PATCH 55/55] fix: normal-ordered Fermi jump takes the Fermi momentum
 in its own number type

---
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 05311ad..68bc87e 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -47,7 +47,7 @@ namespace ieompp
                 FermiJump1D_NO(const Lattice& lattice, ExpectationValueFunction expectation_value)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    static const auto k_F = HalfPi<double>::value;
+                    static const auto k_F = HalfPi<Float>::value;
 
                     _fourier_coefficients.resize(_N);
 
@@ -105,7 +105,7 @@ namespace ieompp
                 FermiJump1D_NO(const Lattice& lattice, ExpectationValueFunction expectation_value)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    static const auto k_F = HalfPi<double>::value;
+                    static const auto k_F = HalfPi<Float>::value;
 
                     _fourier_coefficients.resize(_N);
 
-- 
2.43.0

