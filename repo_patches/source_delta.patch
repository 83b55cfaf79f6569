From 88323d044f5f1c4c0aa2a0b27ecee89e42155f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 01/40] fix: do not allocate a message for checks which hold

ass() and warn() built a std::string on every call, i.e. on every element
access. Thus, an assignment could fail with std::bad_alloc after some of the
elements were already written.
---
 include/etr_bits/Core/Utils.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 5161f43..c2105bf 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -51,7 +51,7 @@ template <typename T> struct It {
   void operator++() { ++p; }
 };
 
-inline void ass(bool inp, std::string message) {
+inline void ass(bool inp, const std::string &message) {
 #ifdef STANDALONE_ETR
   if (!inp)
     throw std::runtime_error(message);
@@ -61,7 +61,7 @@ inline void ass(bool inp, std::string message) {
 #endif
 }
 
-inline void warn(bool inp, std::string message) {
+inline void warn(bool inp, const std::string &message) {
 #ifdef STANDALONE_ETR
   if (!inp)
     std::cerr << "Warning: " + message << std::endl;
@@ -71,6 +71,18 @@ inline void warn(bool inp, std::string message) {
 #endif
 }
 
+// NOTE: A check which holds must not allocate. Otherwise, each element access
+// can throw std::bad_alloc and leave e.g. an assignment half done.
+inline void ass(bool inp, const char *message) {
+  if (!inp)
+    ass(false, std::string(message));
+}
+
+inline void warn(bool inp, const char *message) {
+  if (!inp)
+    warn(false, std::string(message));
+}
+
 struct SI {
   std::size_t sz = 0;
   SI(const std::size_t sz) : sz(sz) {}
-- 
2.43.0


From 9fe3497c89480a6c5b321a0a03f69e428012cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 02/40] fix: moveit also swaps whether memory is allocated

After the first assignment to a default constructed vector the temporary store
had a nullptr but was still empty and not allocated or, the other way around,
was marked as allocated. The second assignment failed with 'try to delete
nullptr'.
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 144b8e4..fb6e9d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -294,15 +294,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   template <typename L2> BaseStore &moveit(L2 &other) {
     T *temporary = other.p;
-    int tempSize = other.sz;
-    int tempCapacity = other.capacity;
+    std::size_t tempSize = other.sz;
+    std::size_t tempCapacity = other.capacity;
+    bool tempAllocated = other.allocated;
     other.p = this->p;
     other.sz = this->sz;
     other.capacity = this->capacity;
+    other.allocated = this->allocated;
     this->p = temporary;
     this->sz = tempSize;
     this->capacity = tempCapacity;
-    allocated = true;
+    this->allocated = tempAllocated;
     return *this;
   }
   auto begin() const { return It<T>{p}; }
-- 
2.43.0


From 5c089a786c2fa313753e385c1ae33a204881bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 03/40] fix: transfer the capacity when a vector is constructed
 from an r value

The capacity stayed 0. Thus, a copy of such a vector allocated no memory but
was read and written up to its size.
---
 include/etr_bits/Vector/Constructors.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index b9c576f..66f73e8 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -199,13 +199,7 @@ Vec(Vec<T2, R2, Trait2> &&other_vec) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
   } else {
-    std::size_t temp = other_vec.size();
-    d.allocated = other_vec.d.allocated;
-    other_vec.d.sz = this->size();
-    d.sz = temp;
-    T *tempP = other_vec.d.p;
-    other_vec.d.p = d.p;
-    d.p = tempP;
+    d.moveit(other_vec.d);
     if (other_vec.d.im()) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
-- 
2.43.0


From 7f0f9988d235ad3711b97d0242543562e6727b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 04/40] fix: a copy of a matrix is a matrix

The copy and move constructor of BaseStore dropped the dimensions. Furthermore,
only the elements in use are copied, as the reserve is not initialised.
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index fb6e9d6..b3777f2 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -34,21 +34,23 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   // constructors
   BaseStore(const BaseStore<T> &other)
-      : sz(other.sz), capacity(other.capacity), allocated(other.allocated) {
+      : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
+        mp(other.mp) {
     if (other.allocated) {
       p = new T[capacity];
-      std::copy(other.p, other.p + capacity, p);
+      std::copy(other.p, other.p + sz, p);
     } else {
       p = nullptr;
     }
   }
   BaseStore(BaseStore<T> &&other) noexcept
       : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
-        p(other.p) {
+        p(other.p), mp(other.mp) {
     other.capacity = 0;
     other.sz = 0;
     other.allocated = false;
     other.p = nullptr;
+    other.mp.setMatrix(false, 0, 0);
   }
 #ifdef STANDALONE_ETR
 #else
-- 
2.43.0


From 0735d38bd3ce139aa39be8e464f1c83e7b604a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 05/40] fix: allocate the new memory before the old one is
 released

When the allocation failed in init, resize or realloc the object pointed to
released memory or had a capacity without memory behind it. Furthermore, realloc
to a smaller size wrote behind the end of the new memory.
---
 include/etr_bits/Core/BaseStore.hpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index b3777f2..e3995d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -248,14 +248,13 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
 
   void init(std::size_t size) {
-    if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
+    std::size_t newCapacity = static_cast<std::size_t>(1.15 * size);
+    T *temp = new T[newCapacity];
+    if (allocated)
       delete[] p;
-      p = nullptr;
-    }
     sz = size;
-    capacity = static_cast<std::size_t>(1.15 * sz);
-    p = new T[capacity];
+    capacity = newCapacity;
+    p = temp;
     allocated = true;
   }
   void resize(std::size_t newSize) {
@@ -266,12 +265,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       return;
     } else {
       if (newSize > capacity) {
-        ass(p != nullptr, "try to delete nullptr");
-        delete[] p;
-        capacity = static_cast<std::size_t>(newSize * 1.15);
-        p = new T[capacity];
-        sz = newSize;
-        allocated = true;
+        init(newSize);
         fill(T());
       } else {
         sz = newSize;
@@ -315,10 +309,9 @@ template <typename T, typename BaseTrait> struct BaseStore {
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
-    T *temp;
-    capacity = static_cast<int>(new_size * 1.15);
-    temp = new T[capacity];
-    for (std::size_t i = 0; i < sz; i++)
+    std::size_t newCapacity = static_cast<std::size_t>(new_size * 1.15);
+    T *temp = new T[newCapacity];
+    for (std::size_t i = 0; i < sz && i < new_size; i++)
       temp[i] = p[i];
 
     for (std::size_t i = sz; i < new_size; i++)
@@ -327,6 +320,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
     delete[] p;
     p = temp;
 
+    capacity = newCapacity;
     sz = new_size;
     allocated = true;
     temp = nullptr;
-- 
2.43.0


From 46391d087ce01168baad79393f7133235473bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 06/40] fix: resize within the capacity initialises the new
 elements

---
 include/etr_bits/Core/BaseStore.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index e3995d6..566a72c 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -268,6 +268,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
         init(newSize);
         fill(T());
       } else {
+        for (std::size_t i = sz; i < newSize; i++)
+          p[i] = T();
         sz = newSize;
         return;
       }
-- 
2.43.0


From 315471b3f1bfc1854697c6e5f28e60c08bbbec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 07/40] fix: assigning a shorter BaseStore

It failed after a part of the elements was overwritten. Furthermore, the
dimensions were not copied.
---
 include/etr_bits/Core/BaseStore.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 566a72c..50a00e5 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -140,9 +140,11 @@ template <typename T, typename BaseTrait> struct BaseStore {
         resize(other.size());
       }
     }
+    this->sz = other.size();
     for (std::size_t i = 0; i < this->sz; i++) {
       p[i] = other[i];
     }
+    mp.setMatrix(other.mp);
     return *this;
   }
 
-- 
2.43.0


From 2e5683cd17950f760d81ba02ba651818610c55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 08/40] fix: fill with an r value copies the elements

The memory was taken over without its capacity and from a Borrow object which
does not own the memory it was even deleted.
---
 include/etr_bits/Core/BaseStore.hpp | 6 ------
 include/etr_bits/Core/Borrow.hpp    | 6 ------
 2 files changed, 12 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 50a00e5..3c05760 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -170,12 +170,6 @@ template <typename T, typename BaseTrait> struct BaseStore {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index bed8808..54108b8 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -103,12 +103,6 @@ template <typename T, typename BorrowTrait> struct Borrow {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From ecefac219c21b10225958b77bad2766425cd1323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 09/40] fix: an assignment also removes the dimensions

Assigning a vector or a scalar to a matrix kept the old dimensions, which did
not fit to the new elements.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index a813443..c92f763 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -23,6 +23,8 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = inp;
     }
+    if constexpr (isBuffer::value || isBorrow::value)
+      d.setMatrix(false, 0, 0);
     return *this;
   } else {
     if constexpr (isSubset::value) {
@@ -36,6 +38,8 @@ Vec &operator=(const TD inp) {
       d.resize(1);
       d[0] = static_cast<T>(inp);
     }
+    if constexpr (isBuffer::value || isBorrow::value)
+      d.setMatrix(false, 0, 0);
     return *this;
   }
 }
@@ -105,6 +109,8 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
   }
   if (otherVec.d.im()) {
     d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+  } else if constexpr (!isSubset::value) {
+    d.setMatrix(false, 0, 0);
   }
   return *this;
 }
@@ -230,10 +236,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
       d.setMatrix(d.AllVarsRef, true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
   } else {
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else if constexpr (!isSubset::value) {
+      d.setMatrix(false, 0, 0);
     }
   }
   return *this;
-- 
2.43.0


From 3bd65e6f77519b58b3bba4b73fb38bd572d64cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 10/40] fix: a unary operation keeps the dimensions of a matrix

---
 include/etr_bits/UnaryCalculations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3b0be8e..254aede 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -14,7 +14,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   using typeTraitObj = I;
   MatrixParameter mp;
   bool im() const {
-    if constexpr (std::is_arithmetic_v<I>) {
+    if constexpr (!std::is_arithmetic_v<I>) {
       return obj.im();
     } else {
       return false;
-- 
2.43.0


From 5eaa333f8112b114837c668060c0768a46026371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 11/40] fix: element i of a subset is the element at index i

The position was taken modulo the size of the underlying vector. Thus, a subset
with more elements than the vector repeated the first indices. Furthermore,
assigning such a subset to another one resized the vector.
---
 include/etr_bits/Core/SubsetClass.hpp          | 6 +++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 --
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 26bc638..3e0b8c8 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index c92f763..174c6b1 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -101,8 +101,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    if (d.p->size() < temp.size())
-      d.resize(temp.size());
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 4f6683a9cb5f9264ca2b1c144ec2d35efee793d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 12/40] fix: matrix subsetting selects the element at (row,
 column)

[double, double] did not put parentheses around column - 1 and
[Vec<double>, double] did not floor the column. Furthermore, a row outside of
the matrix selected an element of another column.
---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 70 +++++++++++--------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index a2499f5..99e8fff 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -35,6 +35,16 @@ namespace etr {
 [25,] "vecbool" "vecbool"
 */
 
+// NOTE: row and col are zero based. An element outside of the matrix is mapped to
+// a position outside of each vector. Thus, it is rejected if it is accessed.
+template <typename T>
+inline std::size_t matrixPosition(const T &vec, std::size_t row,
+                                  std::size_t col) {
+  if (row >= vec.nr() || col >= vec.nc())
+    return std::numeric_limits<std::size_t>::max();
+  return col * vec.nr() + row;
+}
+
 template <typename T, typename I, typename R, typename C>
 inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
                           const C *idxR) {
@@ -58,7 +68,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
-      ind[j] = (*idxR - 1) * vec.nr() + j;
+      ind[j] = matrixPosition(vec, j, *idxR - 1);
     }
     mp.setMatrix(false, 0, 0);
     return;
@@ -69,7 +79,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
-      ind[j] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + j;
+      ind[j] = matrixPosition(vec, j, static_cast<std::size_t>(*idxR) - 1);
     }
     mp.setMatrix(false, 0, 0);
     return;
@@ -101,7 +111,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + i;
+          ind[counter] = matrixPosition(vec, i, positions[j]);
           counter++;
         }
       }
@@ -116,7 +126,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.nr() * idxR->size());
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = (d2i((*idxR)[j]) - 1) * vec.nr() + i;
+          ind[counter] = matrixPosition(vec, i, d2i((*idxR)[j]) - 1);
           counter++;
         }
       }
@@ -130,7 +140,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.nr() * idxR->size());
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = ((*idxR)[j] - 1) * vec.nr() + i;
+          ind[counter] = matrixPosition(vec, i, (*idxR)[j] - 1);
           counter++;
         }
       }
@@ -149,20 +159,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * vec.nr() + (indexRow - 1);
+      ind[j] = matrixPosition(vec, indexRow - 1, j);
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, int, C, int>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (*idxR - 1) * vec.nr() + indexRow;
+    ind[0] = matrixPosition(vec, indexRow, *idxR - 1);
     return;
   } else if constexpr (isd<R, int, C, double>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + indexRow;
+    ind[0] = matrixPosition(vec, indexRow, static_cast<std::size_t>(*idxR) - 1);
     return;
   } else if constexpr (is<R, int> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
@@ -189,7 +199,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(positions.size());
       indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
+        ind[j] = matrixPosition(vec, indexRow, positions[j]);
       }
       mp.setMatrix(false, 0, 0);
       return;
@@ -198,14 +208,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = matrixPosition(vec, indexRow, (*idxR)[j] - 1);
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
+        ind[j] = matrixPosition(vec, indexRow, d2i((*idxR)[j]) - 1);
       mp.setMatrix(false, 0, 0);
     } else {
       static_assert(sizeof(T) == 0,
@@ -221,20 +231,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * convertSize(vec.nr()) + (indexRow - 1);
+      ind[j] = matrixPosition(vec, indexRow - 1, j);
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, double, C, int>) {
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = (*idxR - 1) * convertSize(vec.nr()) + indexRow;
+    ind[0] = matrixPosition(vec, indexRow, *idxR - 1);
     return;
   } else if constexpr (isd<R, double, C, double>) {
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = convertSize(*idxR) - 1 * vec.nr() + indexRow;
+    ind[0] = matrixPosition(vec, indexRow, convertSize(*idxR) - 1);
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
@@ -261,7 +271,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(positions.size());
       indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
+        ind[j] = matrixPosition(vec, indexRow, positions[j]);
       }
       mp.setMatrix(false, 0, 0);
       return;
@@ -270,14 +280,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = matrixPosition(vec, indexRow, (*idxR)[j] - 1);
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = convertSize(*idxL);
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
+        ind[j] = matrixPosition(vec, indexRow, d2i((*idxR)[j]) - 1);
       mp.setMatrix(false, 0, 0);
     } else {
       static_assert(sizeof(T) == 0,
@@ -313,7 +323,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < vec.nc(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
-          ind[counter] = j * vec.nr() + positions[i];
+          ind[counter] = matrixPosition(vec, positions[i], j);
           counter++;
         }
       }
@@ -328,7 +338,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + ((*idxL)[j] - 1);
+          ind[counter] = matrixPosition(vec, (*idxL)[j] - 1, i);
           counter++;
         }
       }
@@ -343,7 +353,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + (d2i((*idxL)[j]) - 1);
+          ind[counter] = matrixPosition(vec, d2i((*idxL)[j]) - 1, i);
           counter++;
         }
       }
@@ -378,20 +388,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       }
       ind.resize(positions.size());
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + positions[j];
+        ind[j] = matrixPosition(vec, positions[j], (*idxR) - 1);
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = matrixPosition(vec, (*idxL)[j] - 1, (*idxR) - 1);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = matrixPosition(vec, d2i((*idxL)[j]) - 1, (*idxR) - 1);
       }
       return;
     } else {
@@ -424,20 +434,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       }
       ind.resize(positions.size());
       for (std::size_t j = 0; j < positions.size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + positions[j];
+        ind[j] = matrixPosition(vec, positions[j], convertSize(*idxR) - 1);
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = matrixPosition(vec, (*idxL)[j] - 1, convertSize(*idxR) - 1);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = matrixPosition(vec, d2i((*idxL)[j]) - 1, convertSize(*idxR) - 1);
       }
       return;
     } else {
@@ -489,7 +499,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions_cols.size(); j++) {
         for (std::size_t i = 0; i < positions_rows.size(); i++) {
-          ind[counter] = positions_cols[j] * vec.nr() + positions_rows[i];
+          ind[counter] = matrixPosition(vec, positions_rows[i], positions_cols[j]);
           counter++;
         }
       }
@@ -517,7 +527,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < positions.size(); i++) {
-          ind[counter] = (d2i((*idxR)[j]) - 1) * vec.nr() + positions[i];
+          ind[counter] = matrixPosition(vec, positions[i], d2i((*idxR)[j]) - 1);
           counter++;
         }
       }
@@ -544,7 +554,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < idxL->size(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + d2i((*idxL)[i]) - 1;
+          ind[counter] = matrixPosition(vec, d2i((*idxL)[i]) - 1, positions[j]);
           counter++;
         }
       }
@@ -557,7 +567,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       for (std::size_t i = 0; i < idxR->size(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
           ind[counter] =
-              (d2i((*idxR)[i]) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+              matrixPosition(vec, d2i((*idxL)[j]) - 1, d2i((*idxR)[i]) - 1);
           counter++;
         }
       }
-- 
2.43.0


From 83b47bd37e9cb59fa586695aaa7a7b4d5ba637b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 13/40] fix: dimensions of [Vec<bool>, Vec<int|double>] and
 calculation[TRUE, TRUE]

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 99e8fff..0ac70da 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -55,7 +55,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.size());
       for (std::size_t i = 0; i < vec.size(); i++)
         ind[i] = i;
-      mp.setMatrix(vec.d.mp);
+      mp.setMatrix(true, vec.nr(), vec.nc());
       return;
     } else {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
@@ -531,6 +531,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
           counter++;
         }
       }
+      mp.setMatrix(true, positions.size(), idxR->size());
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-- 
2.43.0


From dce2cd46ad2700da735e248d6438d5ab09fc9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 14/40] fix: reject an empty logical index instead of a
 division by zero

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 4 ++++
 include/etr_bits/Subsetting/VectorSubsetting.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 0ac70da..dd9e6de 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -179,6 +179,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     if constexpr (is<DataTypeC, bool>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
       std::size_t counter = 0;
+      ass(idxR->size() > 0, "subset has to have at least one element");
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
       for (std::size_t i = 0; i < vec.nc(); i++) {
@@ -251,6 +252,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     if constexpr (is<DataTypeC, bool>) {
       std::size_t indexRow = convertSize(*idxL);
       std::size_t counter = 0;
+      ass(idxR->size() > 0, "subset has to have at least one element");
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
       for (std::size_t i = 0; i < vec.nc(); i++) {
@@ -368,6 +370,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeR = ExtractDataType<R>::RetType;
     if constexpr (is<DataTypeR, bool>) {
       std::size_t counter = 0;
+      ass(idxL->size() > 0, "subset has to have at least one element");
       for (int i = 0; i < vec.nr(); i++) {
         if ((*idxL)[i % idxL->size()])
           counter++;
@@ -414,6 +417,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeR = ExtractDataType<R>::RetType;
     if constexpr (is<DataTypeR, bool>) {
       std::size_t counter = 0;
+      ass(idxL->size() > 0, "subset has to have at least one element");
       for (int i = 0; i < vec.nr(); i++) {
         if ((*idxL)[i % idxL->size()])
           counter++;
diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index 9af08c7..d528f09 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -38,6 +38,7 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
 
     using IndexType = ExtractDataType<I>::RetType;
     if constexpr (is<IndexType, bool>) {
+      ass(idx->size() > 0, "subset has to have at least one element");
       std::size_t sizeTrue = 0;
       for (std::size_t i = 0; i < vec.size(); i++)
         if ((*idx)[i % idx->size()])
-- 
2.43.0


From d9d54f812a1c317a42c2784458990a4235acbc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 15/40] fix: at(matrix, row, column) rejects indices outside of
 the matrix

Only the position in memory was checked. Thus, a row outside of the matrix
returned an element of another column.
---
 include/etr_bits/Subsetting/at.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 80f2967..4bf896a 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -14,6 +14,14 @@ namespace etr {
 - double double
 */
 
+// NOTE: row and col are zero based. Negative values are converted to values which
+// are larger than each dimension.
+template <typename T>
+inline bool inMatrix(const T &inp, std::size_t row, std::size_t col) {
+  return row < inp.nr() && col < inp.nc() &&
+         (col * inp.nr() + row) < inp.size();
+}
+
 template <typename T, typename R>
   requires(IsRVec<T> || IsSubVec<T> ||
            OperationVec<T> && std::is_arithmetic_v<R>)
@@ -59,7 +67,7 @@ inline auto &at(T &inp, R r, C c) {
     r--;
     c--;
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r) < inp.size(),
+    ass(inMatrix(inp, r, c),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r];
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
@@ -67,7 +75,7 @@ inline auto &at(T &inp, R r, C c) {
     r_--;
     c--;
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r_) < inp.size(),
+    ass(inMatrix(inp, r_, c),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r_];
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
@@ -75,7 +83,7 @@ inline auto &at(T &inp, R r, C c) {
     int c_ = d2i(c);
     c_--;
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r) < inp.size(),
+    ass(inMatrix(inp, r, c_),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r];
   } else {
@@ -85,7 +93,7 @@ inline auto &at(T &inp, R r, C c) {
     c_--;
     ass((c_ * inp.nr() + r_) >= 0,
         "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r_) < inp.size(),
+    ass(inMatrix(inp, r_, c_),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r_];
   }
@@ -101,7 +109,7 @@ inline auto at(const T &inp, R r, C c) {
     r--;
     c--;
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r) < inp.size(),
+    ass(inMatrix(inp, r, c),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r];
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
@@ -109,7 +117,7 @@ inline auto at(const T &inp, R r, C c) {
     r_--;
     c--;
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c * inp.nr() + r_) < inp.size(),
+    ass(inMatrix(inp, r_, c),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r_];
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
@@ -117,7 +125,7 @@ inline auto at(const T &inp, R r, C c) {
     int c_ = d2i(c);
     c_--;
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r) < inp.size(),
+    ass(inMatrix(inp, r, c_),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r];
   } else {
@@ -127,7 +135,7 @@ inline auto at(const T &inp, R r, C c) {
     c_--;
     ass((c_ * inp.nr() + r_) >= 0,
         "Error: out of boundaries --> value below 1");
-    ass((c_ * inp.nr() + r_) < inp.size(),
+    ass(inMatrix(inp, r_, c_),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r_];
   }
-- 
2.43.0


From 2919d35dd6b2f09e15964bda575cfa68cf7b967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 16/40] fix: assigning to a subset with an invalid index
 changes no element

---
 include/etr_bits/Core/SubsetClass.hpp          | 9 +++++++++
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 3e0b8c8..3e11200 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -59,6 +59,15 @@ template <typename T, typename SubsetTrait> struct Subset {
   void setInd(int idx, int val) { ind[idx] = val; }
   void setPtr(const T *pOther) { this->p = pOther; }
 
+  // NOTE: is called before elements are assigned. Otherwise, a part of the
+  // elements would be changed before an invalid index is found.
+  void checkInd() const {
+    ass(this->p != nullptr, "Subset is pointing to nothing!");
+    for (std::size_t i = 0; i < ind.size(); i++)
+      ass(ind[i] < p->size(),
+          "Error: out of boundaries --> value beyond size of vector");
+  }
+
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
     return this->p->operator[](ind[pos % ind.size()]);
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 174c6b1..40ec9a8 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -13,6 +13,7 @@ Vec &operator=(const TD inp) {
                 "Cannot assign to an r value. E.g. c(1, 2, 3) <- 1");
   if constexpr (is<TD, T>) {
     if constexpr (isSubset::value) {
+      d.checkInd();
       for (std::size_t i = 0; i < d.ind.size(); i++) {
         d[i] = inp;
       }
@@ -28,6 +29,7 @@ Vec &operator=(const TD inp) {
     return *this;
   } else {
     if constexpr (isSubset::value) {
+      d.checkInd();
       for (std::size_t i = 0; i < d.ind.size(); i++) {
         d[i] = static_cast<T>(inp);
       }
@@ -101,6 +103,7 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
+    d.checkInd();
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
@@ -170,6 +173,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
+    d.checkInd();
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 52e4eba78fb33775e29f1029ee1b88c801fe5a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 17/40] fix: a loop over a subset visits the selected elements

It visited the first elements of the underlying vector.
---
 include/etr_bits/Core/SubsetClass.hpp   | 10 ++++++++++
 include/etr_bits/Vector/VectorClass.hpp |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 3e11200..67298ee 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -2,6 +2,16 @@
 #define SUBSETCLASS_ETR_H
 
 namespace etr {
+// Iterates over the selected elements
+template <typename P> struct SubsetIt {
+  P p;
+  const Indices *ind;
+  std::size_t i;
+  decltype(auto) operator*() { return (*p)[(*ind)[i]]; }
+  bool operator!=(const SubsetIt &rhs) { return i != rhs.i; }
+  void operator++() { ++i; }
+};
+
 // Points to a Variable and stores indicces in ind
 template <typename T, typename SubsetTrait> struct Subset {
   using RetType = BaseType;
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index ce974b2..db42967 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -60,14 +60,14 @@ template <typename T, typename R, typename Trait> struct Vec {
 
   auto begin() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p};
+      return SubsetIt<decltype(d.p)>{d.p, &d.ind, 0};
     } else {
       return It<T>{d.p};
     }
   }
   auto end() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p + this->size()};
+      return SubsetIt<decltype(d.p)>{d.p, &d.ind, this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
-- 
2.43.0


From 6790dda86158499f0587976bd707018c939aa82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 18/40] fix: back returns the last element

It returned the memory behind the last element. Thus, cmr read behind the end of
the time vector in the last interval.
---
 include/etr_bits/Core/BaseStore.hpp     | 2 +-
 include/etr_bits/Core/Borrow.hpp        | 2 +-
 include/etr_bits/Core/BorrowSEXP.hpp    | 2 +-
 include/etr_bits/Vector/VectorClass.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 3c05760..9570c8b 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -303,7 +303,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index 54108b8..711aa66 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -148,7 +148,7 @@ template <typename T, typename BorrowTrait> struct Borrow {
   template <typename L2> Borrow &moveit(L2 &other) = delete;
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) = delete;
   void push_back(T input) = delete;
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 4023ba6..7aa3d8c 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -213,7 +213,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
 
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) {
     if (new_size <= sz) {
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index db42967..0540d77 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -83,7 +83,7 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size()]; }
+  T &back() const { return d.p[this->size() - 1]; }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From 092a385b1981848ee40d42f0cba00b9a143c268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 19/40] fix: warn if, and not unless, only the first element is
 used

The conditions in matrix and cmr were inverted. Thus, each valid call was
reported and the calls in question were not.
---
 include/etr_bits/Allocation/Matrix.hpp | 16 ++++++++--------
 include/etr_bits/Interpolation.hpp     |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/etr_bits/Allocation/Matrix.hpp b/include/etr_bits/Allocation/Matrix.hpp
index 23a1bae..8ce6b66 100644
--- a/include/etr_bits/Allocation/Matrix.hpp
+++ b/include/etr_bits/Allocation/Matrix.hpp
@@ -45,7 +45,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -53,7 +53,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -62,7 +62,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -70,7 +70,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -79,9 +79,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
@@ -89,9 +89,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index dd943e8..5b0ea76 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -172,7 +172,7 @@ inline double cmr(const A &tInp, const B &timeVec, const C &parVec) {
   using DataTypeTInp = ExtractDataType<std::remove_reference_t<A>>::RetType;
   static_assert(is<DataTypeTInp, double>,
                 "time input vector does not include doubles");
-  warn(tInp.size() > 1,
+  warn(tInp.size() == 1,
        "time point has more than one element only the first one is used");
   return cmrInternal(&tInp, &timeVec, &parVec);
 }
-- 
2.43.0


From 5536e6a94743508ad3e1970a9a23894a9a972036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 20/40] fix: linear interpolation

li read the element behind the end (and thus always failed) and used a slope
which was never set.
---
 include/etr_bits/Interpolation.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index 5b0ea76..344e15a 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -24,15 +24,15 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -40,6 +40,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
@@ -51,15 +52,15 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -67,6 +68,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
-- 
2.43.0


From fd849cbca2aca4f8b31dd029850d64041639597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 21/40] fix: length of vector_logical

The length was converted to bool. Thus, for an l value the length was always 1.
---
 include/etr_bits/Allocation/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 7e27d3b..841cd45 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<bool>(inp[0]);
+    return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From f198f68c1a4e5b8d4d16893819ddafe743014890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 22/40] fix: a calculation with an empty vector is empty

It crashed with a division by zero when the empty operand was recycled.
---
 include/etr_bits/BinaryCalculations.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b401e34..0aa3be1 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -115,6 +115,8 @@ struct BinaryOperation {
     } else if constexpr (isDoubleL && !isDoubleR) {
       return r.size();
     } else if constexpr (!isDoubleL && !isDoubleR) {
+      if (l.size() == 0 || r.size() == 0)
+        return 0; // NOTE: there is nothing which can be recycled
       return l.size() > r.size() ? l.size() : r.size();
     }
   }
-- 
2.43.0


From 69e7bc2b0ccbe1c70795aa08eea3d65ef6bd478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 23/40] fix: print logical matrices like logical vectors

Whether 1 or true was printed depended on what was printed before.
---
 include/etr_bits/Printing.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 4064028..f94c4fd 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -46,7 +46,7 @@ inline void print(const Vec<L, R> &inp) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -63,7 +63,7 @@ inline void print(const etr::Vec<T, Op, Trait> &inp) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -81,7 +81,7 @@ print(const T &inp) { // issue: just a quick fix for printing unary expression
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
-- 
2.43.0


From 0eb8c262ef2f9b26277105cff749a968370a6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 24/40] fix: colon produces exactly the calculated number of
 elements

The loop compared the running value with the end. Thus, rounding errors wrote
behind the end of the vector and the value overflowed at the largest integer.
---
 include/etr_bits/Allocation/Colon.hpp | 28 ++++++++-------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 29827ad..a8e7f98 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -25,21 +25,15 @@ template <typename T> inline auto colonInternal(T start, T end) {
   if (start < end) {
     std::size_t length = convertSize(end - start + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (start <= end) {
-      ret[counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start + static_cast<T>(i);
     }
     return ret;
   } else {
     std::size_t length = convertSize(start - end + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (end <= start) {
-      ret[counter] = start;
-      start--;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start - static_cast<T>(i);
     }
     return ret;
   }
@@ -252,22 +246,16 @@ inline auto colonInternalDerivs(AV &av, T start, T end) {
     std::size_t length = convertSize(end - start + 1);
     av.varConstants[Idx].resize(convertSize(length));
     Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-    std::size_t counter = 0;
-    while (start <= end) {
-      av.varConstants[Idx][counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      av.varConstants[Idx][i] = start + static_cast<T>(i);
     }
     return ret;
   }
   std::size_t length = convertSize(start - end + 1);
   av.varConstants[Idx].resize(convertSize(length));
   Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-  std::size_t counter = 0;
-  while (end <= start) {
-    av.varConstants[Idx][counter] = start;
-    start--;
-    counter++;
+  for (std::size_t i = 0; i < length; i++) {
+    av.varConstants[Idx][i] = start - static_cast<T>(i);
   }
   return ret;
 }
-- 
2.43.0


From a4d0e341006b6bb6b712a5ec39d5621984acce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 25/40] fix: a comparison is a logical vector

Thus, it can be used to select elements, e.g. v(v > 2). Before, it was used as
numeric index with the values 0 and 1.
---
 include/etr_bits/BinaryCalculations.hpp | 78 ++++++-------------------
 1 file changed, 18 insertions(+), 60 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index 0aa3be1..ba536fb 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -272,20 +272,13 @@ template <typename L, typename R> auto operator==(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, EqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, EqualTrait>>(
         BinaryOperation<decltype(l.d), R, EqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), EqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), EqualTrait>>(
         BinaryOperation<L, decltype(r.d), EqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
@@ -296,20 +289,13 @@ template <typename L, typename R> auto operator!=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
         BinaryOperation<decltype(l.d), R, UnEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
         BinaryOperation<L, decltype(r.d), UnEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         UnEqualTrait>(l.d, r.d));
@@ -322,20 +308,13 @@ template <typename L, typename R> auto operator>(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, LargerTrait>>(
         BinaryOperation<decltype(l.d), R, LargerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), LargerTrait>>(
         BinaryOperation<L, decltype(r.d), LargerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         LargerTrait>(l.d, r.d));
@@ -348,20 +327,13 @@ template <typename L, typename R> auto operator>=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, LargerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), LargerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         LargerEqualTrait>(l.d, r.d));
@@ -374,20 +346,13 @@ template <typename L, typename R> auto operator<(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, SmallerTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), SmallerTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         SmallerTrait>(l.d, r.d));
@@ -400,20 +365,13 @@ template <typename L, typename R> auto operator<=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         SmallerEqualTrait>(l.d, r.d));
-- 
2.43.0


From 16fcc19869c40282babe4c5a6c096d77c50566a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 26/40] fix: derivative of a quotient divides by the squared
 denominator

---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 5802388..8e41cd8 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -98,7 +98,7 @@ struct DivideDerivTrait {
   static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
                                                     RDeriv rd) {
     return (ld * r - l * rd) /
-           std::pow(rd, 2); // TODO: add check for integral ...
+           std::pow(r, 2); // TODO: add check for integral ...
   }
 };
 
-- 
2.43.0


From a444dbca607a33d4a8c2243b9b9eb37a5808b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 27/40] fix: derivative of a unary function uses the chain rule

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 74da964..54f30aa 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -74,11 +74,7 @@ template <typename Deriv, typename Trait, typename OpTrait> struct UnaryType {
     return Op::f(Deriv::getVal(av, idx));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    if constexpr (IsConstant<Deriv> || IsVariableType<Deriv>) {
-      return Op::fDeriv(Deriv::getVal(av, idx));
-    } else {
-      return Op::fDeriv(Deriv::getDeriv(av, idx));
-    }
+    return Op::fDeriv(Deriv::getVal(av, idx)) * Deriv::getDeriv(av, idx);
   }
 };
 
-- 
2.43.0


From 92041d75feeb4efdaa89d21bbacdabc460cced8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 28/40] fix: evaluate values and derivatives before a variable
 is changed

---
 include/etr_bits/Derivatives/VarPointer.hpp   | 23 ++++++++++
 .../etr_bits/Vector/AssignmentOperator.hpp    | 46 +++++--------------
 2 files changed, 35 insertions(+), 34 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index 96fc23e..c2f832d 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -181,6 +181,29 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     }
   }
 
+  // NOTE: replaces values and derivatives. Nothing is allocated for a Buffer.
+  template <typename AV, typename V, typename D>
+  static void commit(AV &av, V &values, D &derivs) {
+    if constexpr (TypeIdx == 0) {
+      av.varBuffer[Idx].d.moveit(values);
+      av.varBufferDerivs[Idx].moveit(derivs);
+    } else if constexpr (TypeIdx == 1) {
+      av.varBorrow[Idx].resize(values.size());
+      for (std::size_t i = 0; i < values.size(); i++) {
+        setVal(av, i, values[i]);
+      }
+      av.varBorrowDerivs[Idx].moveit(derivs);
+    } else if constexpr (TypeIdx == 2) {
+      av.varBorrowSEXP[Idx].resize(values.size());
+      for (std::size_t i = 0; i < values.size(); i++) {
+        setVal(av, i, values[i]);
+      }
+      av.varBorrowSEXPDerivs[Idx].moveit(derivs);
+    } else {
+      ass(false, "Unknown variable index found");
+    }
+  }
+
   // NOTE: TypeIdx -1 not implemented as for a constant the derivative can not
   // be set
   template <typename AV, typename Val>
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 40ec9a8..99ba305 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -178,62 +178,40 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       d[i % d.ind.size()] = temp[i];
     }
   } else if constexpr (isVariableType::value) {
-    // TODO: temp has to be used instead of writing directly in d
     using tD = decltype(otherVec.d);
     using tDRaw = std::remove_reference<decltype(otherVec)>::type;
     using typeExpr = std::remove_reference<ExtractedTypeD<tDRaw>>::type;
+    // NOTE: values and derivatives are calculated before one of them is changed
+    Buffer<BaseType> tempDerivs;
+    temp.resize(otherVec.size());
+    tempDerivs.resize(otherVec.size());
     // NOTE: a constant
     if constexpr (IsConstant<decltype(otherVec)>) {
-      d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
+        temp[i] = otherVec.d[i];
       }
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
       if (d.AllVarsRef.IndepVarIdx == d.I) {
-        for (std::size_t i = 0; i < otherVec.size(); i++) {
-          d.setDeriv(d.AllVarsRef, i, 1.0);
-        }
-      } else {
-        for (std::size_t i = 0; i < otherVec.size(); i++) {
-          d.setDeriv(d.AllVarsRef, i, 0.0);
-        }
+        tempDerivs.fill(1.0);
       }
-
     }
     // NOTE: an expression
     else if constexpr (!IsVarPointer<tD>) {
       constexpr auto res = walkTD<typeExpr>();
-      temp.resize(otherVec.size());
-
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
+        tempDerivs[i] = res.getDeriv(d.AllVarsRef, i);
       }
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
-        d.setDeriv(d.AllVarsRef, i, res.getDeriv(d.AllVarsRef, i));
-      }
-
-      d.resize(otherVec.size());
-      for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = temp[i];
-      }
-
     }
     // NOTE: a variable
     else {
-      d.resize(otherVec.size());
-      for (std::size_t i = 0; i < d.size(); i++) {
-        d.setVal(otherVec.d.AllVarsRef, i,
-                 tD::getVal(otherVec.d.AllVarsRef, i));
-      }
-      if constexpr (is<Trait2, VariableTypeTrait>) {
-        d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-        for (std::size_t i = 0; i < d.size(); i++) {
-          d.setDeriv(d.AllVarsRef, i,
-                     otherVec.d.getDeriv(otherVec.d.AllVarsRef, i));
+      for (std::size_t i = 0; i < otherVec.size(); i++) {
+        temp[i] = tD::getVal(otherVec.d.AllVarsRef, i);
+        if constexpr (is<Trait2, VariableTypeTrait>) {
+          tempDerivs[i] = otherVec.d.getDeriv(otherVec.d.AllVarsRef, i);
         }
       }
     }
+    d.commit(d.AllVarsRef, temp, tempDerivs);
   }
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
-- 
2.43.0


From 27efee698b0bab6cf1c2b3a55b522a5722dc9362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 29/40] fix: the elements of a comparison are logical values

They had the type of the operands. Thus, they were printed as numbers and a
condition with more than one element was not reported.
---
 include/etr_bits/BinaryCalculations.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index ba536fb..895a827 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -21,7 +21,13 @@ struct BinaryOperation {
   using Type = DoubleTrait;
   using TypeTrait = Trait;
   using CaseTrait = BinaryTrait;
-  using RetType = typename CTrait::RetType;
+  using isComparison = std::disjunction<
+      std::is_same<Trait, EqualTrait>, std::is_same<Trait, UnEqualTrait>,
+      std::is_same<Trait, LargerTrait>, std::is_same<Trait, LargerEqualTrait>,
+      std::is_same<Trait, SmallerTrait>,
+      std::is_same<Trait, SmallerEqualTrait>>;
+  using RetType = std::conditional_t<isComparison::value, bool,
+                                     typename CTrait::RetType>;
   const L &l;
   const R &r;
   using typeTraitL = L;
-- 
2.43.0


From a6d11283d33ffce5b44f61a4e3e1f12fe34bd70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 30/40] fix: reject an index beyond the size of a calculation

Calculations and subsets recycle their elements. Thus, subset(x * 2, 4) was the
first element of a vector with three elements.
---
 include/etr_bits/Core/SubsetClass.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 67298ee..e9caede 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -148,7 +148,11 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % ind.size()]);
+    const std::size_t i = ind[pos % ind.size()];
+    // NOTE: a calculation recycles its elements
+    ass(i < p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
+    return this->p->operator[](i);
   }
 
   ~Subset() {}
-- 
2.43.0


From 8547d2406b37102f93dd5387f2da5cad1fcd2de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 31/40] fix: the elements of a subset have the type of the
 elements

Thus, a subset of a logical vector is printed like the vector, reports a
condition with more than one element and its elements can be changed with [].
---
 include/etr_bits/Core/SubsetClass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index e9caede..b542d4a 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -14,13 +14,13 @@ template <typename P> struct SubsetIt {
 
 // Points to a Variable and stores indicces in ind
 template <typename T, typename SubsetTrait> struct Subset {
-  using RetType = BaseType;
   using Type = T;
   using TypeTrait = SubsetTrait;
   using CaseTrait = SubsetTrait;
   Indices ind;
   T *p = nullptr;
   using CurrentBaseType = std::remove_reference<decltype(*p)>::type::Type;
+  using RetType = CurrentBaseType;
   MatrixParameter mp;
 
   std::size_t size() const { return ind.size(); }
@@ -93,7 +93,6 @@ template <typename T, typename SubsetTrait> struct Subset {
 
 template <typename T, typename SubsetTrait>
 struct Subset<const T, SubsetTrait> {
-  using RetType = BaseType;
   using Type = T;
   using TypeTrait = SubsetTrait;
   using CaseTrait = SubsetTrait;
@@ -101,6 +100,7 @@ struct Subset<const T, SubsetTrait> {
   const T *p;
   using CurrentBaseType =
       typename std::remove_reference<decltype(*p)>::type::RetType;
+  using RetType = CurrentBaseType;
   MatrixParameter mp;
 
   std::size_t size() const { return ind.size(); }
-- 
2.43.0


From faad9cd8987cdf5e886dcbe12883e437f3d09036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 32/40] fix: only the independent variable of the chosen kind
 has the derivative one

---
 include/etr_bits/Derivatives/VarPointer.hpp    | 9 ++++++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index c2f832d..8652446 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -151,7 +151,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 0) {
       if (av.varBufferDerivs[Idx].size() != av.varBuffer[Idx].size()) {
         av.varBufferDerivs[Idx].resize(av.varBuffer[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBufferDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -160,7 +161,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 1) {
       if (av.varBorrowDerivs[Idx].size() != av.varBorrow[Idx].size()) {
         av.varBorrowDerivs[Idx].resize(av.varBorrow[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -169,7 +171,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 2) {
       if (av.varBorrowSEXPDerivs[Idx].size() != av.varBorrowSEXP[Idx].size()) {
         av.varBorrowSEXPDerivs[Idx].resize(av.varBorrowSEXP[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowSEXPDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 99ba305..3cec3dc 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -190,7 +190,8 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
       }
-      if (d.AllVarsRef.IndepVarIdx == d.I) {
+      if ((d.AllVarsRef.IndepVarIdx == d.I) &&
+          (d.AllVarsRef.IndepVarTypeIdx == d.TIdx)) {
         tempDerivs.fill(1.0);
       }
     }
-- 
2.43.0


From 5e1fcb867e567b232736ec7c27d7b3b740a41d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 33/40] fix: initBorrow refers to the memory of its arguments

---
 include/etr_bits/Derivatives/AllVars.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 8a0986f..069ee09 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -50,7 +50,7 @@ struct AllVars {
     int idx = 0;
     LoopVariadicT(
         [&](auto arg) {
-          this->varBorrow[idx] = arg;
+          this->varBorrow[idx].d = arg.d;
           idx++;
         },
         args...);
-- 
2.43.0


From ef8b8b0cf9e4b0aec1dc274e12ffa611cecd3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 34/40] fix: vector_numeric, vector_integer and vector_logical
 of a set of variables return zeros

The constant keeps the elements which an earlier statement stored under the same
index. resize alone leaves them in place.
---
 include/etr_bits/Allocation/Vector.hpp | 67 ++++++++++++++------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 841cd45..6a19eac 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -97,27 +97,34 @@ template <typename T> inline auto vector_numeric(T &inp) {
   }
 }
 
+// NOTE: a constant can contain the elements of a previous call
+template <int Idx, typename AV>
+inline void zeroConstants(AV &av, std::size_t size) {
+  av.varConstants[Idx].resize(size);
+  av.varConstants[Idx].fill(0.0);
+}
+
 // TODO: remove typename AV. Instead use the AllVarsRef variable stored in inp
 // THis has to be done for all functions where a constant is created
 template <int Idx, typename AV, typename T>
 inline auto vector_integer(AV &av, const T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstants<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -129,21 +136,21 @@ template <int Idx, typename AV, typename T>
 inline auto vector_integer(AV &av, T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstants<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -155,21 +162,21 @@ template <int Idx, typename AV, typename T>
 inline auto vector_logical(AV &av, const T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstants<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -181,21 +188,21 @@ template <int Idx, typename AV, typename T>
 inline auto vector_logical(AV &av, T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstants<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -207,21 +214,21 @@ template <int Idx, typename AV, typename T>
 inline auto vector_numeric(AV &av, const T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstants<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -233,21 +240,21 @@ template <int Idx, typename AV, typename T>
 inline auto vector_numeric(AV &av, T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
-    av.varConstants[Idx].resize(convertSize(inp));
+    zeroConstants<Idx>(av, convertSize(inp));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    av.varConstants[Idx].resize(convertSize(inp[0]));
+    zeroConstants<Idx>(av, convertSize(inp[0]));
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
-- 
2.43.0


From 24ea77d8fcf5d93a72a60b72b00ed1459a7d7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 35/40] fix: a scalar is not assigned to a view without memory

A view of no memory, or of zero elements, got the size one. The size is now
checked against the capacity of the memory as for all other assignments.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 3cec3dc..0195ede 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -18,7 +18,7 @@ Vec &operator=(const TD inp) {
         d[i] = inp;
       }
     } else if constexpr (isBorrow::value) {
-      d.sz = 1;
+      d.resize(1);
       d[0] = inp;
     } else {
       d.resize(1);
@@ -34,7 +34,7 @@ Vec &operator=(const TD inp) {
         d[i] = static_cast<T>(inp);
       }
     } else if constexpr (isBorrow::value) {
-      d.sz = 1;
+      d.resize(1);
       d[0] = static_cast<T>(inp);
     } else {
       d.resize(1);
-- 
2.43.0


From 37220dea89a1c69b0811765d11b707c9305bc860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 36/40] fix: a view of a matrix refers to the memory of the
 caller

Vec(ptr, rows, cols) of a Borrow wrote into a view without memory.
---
 include/etr_bits/Vector/Constructors.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index 66f73e8..d418078 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -217,8 +217,12 @@ Vec(BaseType *ptr, std::size_t size) : d(size) {
   }
 }
 Vec(BaseType *ptr, std::size_t rows, std::size_t cols) : d(rows * cols) {
-  for (std::size_t i = 0; i < d.size(); i++)
-    d[i] = ptr[i];
+  if constexpr (isBorrow::value) {
+    d.init(ptr, rows * cols);
+  } else {
+    for (std::size_t i = 0; i < d.size(); i++)
+      d[i] = ptr[i];
+  }
   d.setMatrix(true, rows, cols);
 }
 
-- 
2.43.0


From 01b69178394221b6e474ef730282d577b84006ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 37/40] fix: a stored selection keeps its shape when a matrix
 is assigned to it

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 0195ede..fc7ee63 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -108,10 +108,13 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
       d[i % d.ind.size()] = temp[i];
     }
   }
-  if (otherVec.d.im()) {
-    d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
-  } else if constexpr (!isSubset::value) {
-    d.setMatrix(false, 0, 0);
+  // NOTE: a subset keeps the shape of its selection
+  if constexpr (!isSubset::value) {
+    if (otherVec.d.im()) {
+      d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(false, 0, 0);
+    }
   }
   return *this;
 }
@@ -220,10 +223,10 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     } else {
       d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
-  } else {
+  } else if constexpr (!isSubset::value) { // NOTE: keeps its shape
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
-    } else if constexpr (!isSubset::value) {
+    } else {
       d.setMatrix(false, 0, 0);
     }
   }
-- 
2.43.0


From bb6e7716d67e194b7845649faf13cced410e68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 38/40] fix: a selection is streamed with its elements

operator<< used the pointer of the store, for a subset this is an array of
stores.
---
 include/etr_bits/Vector/VectorClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index 0540d77..bfe8930 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -89,7 +89,7 @@ template <typename T, typename R, typename Trait> struct Vec {
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
     os << "Vec [ ";
     for (std::size_t i = 0; i < vec.size(); i++) {
-      os << vec.d.p[i] << " ";
+      os << vec.d[i] << " ";
     }
     os << "]";
     return os;
-- 
2.43.0


From 70e200aec51c8f382f9dd5baf8dbaf9b001ad058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:36 +0000
Subject: [PATCH 39/40] fix: linear interpolation at a missing time is missing

---
 include/etr_bits/Interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index 344e15a..b181505 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -21,7 +21,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = t_[0];
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA; // NOTE: a missing time lies in no interval
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
     if (t >= timeVec[timeVec.size() - 1]) {
@@ -49,7 +49,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = static_cast<BaseType>(t_);
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA; // NOTE: a missing time lies in no interval
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
     if (t >= timeVec[timeVec.size() - 1]) {
-- 
2.43.0


From 695ee87efb3d5d78c987ab0af6f386fcb356f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:36 +0000
Subject: [PATCH 40/40] fix: operands whose dimensions do not fit are rejected
 before the calculation

---
 include/etr_bits/BinaryCalculations.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index 895a827..d061d3d 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -94,7 +94,19 @@ struct BinaryOperation {
   BinaryOperation(const BinaryOperation &other) : l(other.l), r(other.r) {}
   BinaryOperation(const BinaryOperation &&other)
       : l(std::move(other.l)), r(std::move(other.r)) {}
-  BinaryOperation(const L &l_, const R &r_) : l(l_), r(r_) {}
+  BinaryOperation(const L &l_, const R &r_) : l(l_), r(r_) {
+    // NOTE: a matrix fits to a matrix with the same dimensions or to a vector
+    // which is not longer
+    if constexpr (!std::is_arithmetic_v<L> && !std::is_arithmetic_v<R>) {
+      if (l.im() && r.im()) {
+        ass(l.nr() == r.nr() && l.nc() == r.nc(),
+            "dimensions of the matrices differ");
+      } else if (l.im() || r.im()) {
+        ass(l.im() ? r.size() <= l.size() : l.size() <= r.size(),
+            "dimensions do not match the length of the vector");
+      }
+    }
+  }
   template <typename LType, typename RType, typename TraitOther>
   BinaryOperation(const BinaryOperation<LType, RType, TraitOther>
                       &other) // TODO: needs move constructor
-- 
2.43.0

