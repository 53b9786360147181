From a3d3235869ba2ca09e1ed0d928b28c6eb33dd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 01/56] fix: vector_set built from an initializer list ignored
 its allocator

---
 Awl/VectorSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..0cfa2bd 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -239,7 +239,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc), m_nodeAlloc(m_alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
-- 
2.43.0


From bb7f631b370e1a71cefab3b8a47a99519fe99b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 02/56] fix: vector_set leaked a node when the constructor of
 the element threw

---
 Awl/VectorSet.h | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 0cfa2bd..e05b3bd 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -166,25 +166,21 @@ namespace awl
 
         using NodeAllocator = typename std::allocator_traits<Allocator>::template rebind_alloc<Node>;
 
-        Node * CreateNode(const T & val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
-        }
-
-        Node * CreateNode(T && val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
-        }
-
         template <class... Args>
         Node * CreateNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+                throw;
+            }
+
             return node;
         }
 
-- 
2.43.0


From 60cd4edb18e7e4df022c7219920ed2131c316cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 03/56] fix: vector_set::emplace returned the memory of a
 duplicate element to a wrong allocator

---
 Awl/VectorSet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index e05b3bd..cabf03c 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -350,8 +350,8 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            auto deleter = [this](Node * n) { DestroyNode(n); };
+            std::unique_ptr<Node, decltype(deleter)> val_node(CreateNode(std::forward<Args>(args) ...), deleter);
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
-- 
2.43.0


From e1cebee83b36c50f3702092e1aebc7e16a58363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 04/56] fix: assigning a vector_set to itself lost all its
 elements

---
 Awl/VectorSet.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index cabf03c..5fed0f6 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -273,10 +273,14 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 50fdd910f15eec36fcaff654eadc95be0ec37fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 05/56] fix: vector_set tested a wrong color after a removal
 and could leave two red nodes in a row

---
 Awl/VectorSet.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 5fed0f6..2a1d24c 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -1048,6 +1048,9 @@ namespace awl
             else
                 x = y->right;
 
+            //The color of the node the tree loses, CopyFrom() below overwrites it.
+            const Color removed_color = y->color;
+
             if (x != nullptr)
                 x->SetParent(y->parent);
 
@@ -1074,7 +1077,7 @@ namespace awl
                 //z.mKey = y.mKey;
             }
 
-            if (y->color == Color::Black && x != nullptr)
+            if (removed_color == Color::Black && x != nullptr)
                 BalanceAfterRemove(x);
 
             //Remove the node from the list.
-- 
2.43.0


From b09e9592e293ef53f91eb77828c0b62378d493d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 06/56] fix: ring::at() did not throw for the index equal to
 the size

---
 Awl/Ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..c70d2e4 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -392,7 +392,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
-- 
2.43.0


From d8f8eee2221f3834907c851f536bda1e0c2fb2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 07/56] fix: a default constructed or moved-from ring had an
 undefined size and capacity

---
 Awl/Ring.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index c70d2e4..27e8df1 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -548,6 +548,10 @@ namespace awl
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
@@ -561,6 +565,13 @@ namespace awl
 
         void copy(const ring & other)
         {
+            if (other.m_buf == nullptr)
+            {
+                release();
+
+                return;
+            }
+
             m_capacity = other.m_capacity;
             m_buf = m_alloc.allocate(m_capacity);
 
@@ -575,11 +586,11 @@ namespace awl
 
         Allocator m_alloc;
 
-        T * m_buf;
-        std::size_t m_capacity;
+        T * m_buf = nullptr;
+        std::size_t m_capacity = 0;
 
-        T * m_data;
-        std::size_t m_size;
+        T * m_data = nullptr;
+        std::size_t m_size = 0;
 
         template <class E>
         friend class ring_iterator;
-- 
2.43.0


From c30d833ed4bb2fce9a9708ee1c3e756eb040c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 08/56] fix: pushing a copy of its own element, or a copy that
 throws, corrupted a ring

---
 Awl/Ring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index 27e8df1..7126f23 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -288,9 +288,11 @@ namespace awl
         const_reference front() const { assert(!empty()); return *m_data; }
         const_reference back() const { assert(!empty()); return *last<const T>();}
 
+        //The argument can be an element of the ring, and its copy constructor can throw,
+        //so we make a copy before we overwrite an element.
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            push_front(value_type(val));
         }
 
         void push_front(value_type && val)
@@ -300,7 +302,7 @@ namespace awl
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            push_back(value_type(val));
         }
 
         void push_back(value_type && val)
-- 
2.43.0


From b279a53f6ff3b883fc174bcff792d0b293b32de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 09/56] fix: member and enumerator names were wrong if there
 was no space after a comma

---
 Awl/Reflection.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Awl/Reflection.h b/Awl/Reflection.h
index 7d00783..98cd21f 100644
--- a/Awl/Reflection.h
+++ b/Awl/Reflection.h
@@ -88,14 +88,22 @@ namespace awl
                 const char * p = va;
                 while (*p != 0)
                 {
-                    if (*p == ',' && *(p + 1) == ' ')
+                    if (*p == ',')
                     {
                         assert(p_start != nullptr);
-                        assert(p > p_start);
-                        accept(p_start, p - p_start);
+
+                        //The preprocessor leaves at most one space on each side of the comma.
+                        const char * p_end = p != p_start && *(p - 1) == ' ' ? p - 1 : p;
+
+                        assert(p_end > p_start);
+                        accept(p_start, p_end - p_start);
                         p_start = nullptr;
                         eaten_separator = true;
-                        ++p;
+
+                        if (*(p + 1) == ' ')
+                        {
+                            ++p;
+                        }
                     }
                     else if (eaten_separator)
                     {
-- 
2.43.0


From c1b10abb684a9dc369f8b98b4a57ad2bb2641368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 10/56] fix: a bitmap of more than 64 values could not be made
 of an initializer list

---
 Awl/BitMap.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/Awl/BitMap.h b/Awl/BitMap.h
index 9016d2d..fe850ef 100644
--- a/Awl/BitMap.h
+++ b/Awl/BitMap.h
@@ -10,6 +10,7 @@
 #include <type_traits>
 #include <bitset>
 #include <initializer_list>
+#include <limits>
 
 namespace awl
 {
@@ -30,7 +31,7 @@ namespace awl
 
         constexpr bitmap() = default;
 
-        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeLong(values))
+        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeBits(values))
         {
             //for (Enum v : values)
             //{
@@ -187,6 +188,26 @@ namespace awl
             return bits;
         }
 
+        static constexpr BitSet MakeBits(std::initializer_list<Enum> values)
+        {
+            //std::bitset::set() is not constexpr in C++20.
+            if constexpr (N <= std::numeric_limits<unsigned long long>::digits)
+            {
+                return BitSet(MakeLong(values));
+            }
+            else
+            {
+                BitSet bits;
+
+                for (Enum v : values)
+                {
+                    bits.set(Enum2Index(v));
+                }
+
+                return bits;
+            }
+        }
+
         static constexpr unsigned long long MakeLong(std::initializer_list<Enum> values)
         {
             unsigned long long val = 0ull;
-- 
2.43.0


From 5b10e5dc93546fe604dc77d91a39e295ed6fa52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 11/56] fix: a decimal could have more fractional digits than
 its denominator can represent

---
 Awl/DecimalConstants.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalConstants.h b/Awl/DecimalConstants.h
index 7233ba0..ae97eb2 100644
--- a/Awl/DecimalConstants.h
+++ b/Awl/DecimalConstants.h
@@ -31,7 +31,25 @@ namespace awl
 
             static constexpr UInt max_exp()
             {
-                return p2(exp_len) - 1;
+                //The denominators are stored in UInt, so there can't be more digits than fit into it.
+                const UInt digits = max_digits();
+
+                return p2(exp_len) - 1 < digits ? p2(exp_len) - 1 : digits;
+            }
+
+            //The largest N such that 10^N fits into UInt.
+            static constexpr uint8_t max_digits()
+            {
+                UInt val = static_cast<UInt>(~static_cast<UInt>(0));
+
+                uint8_t count = 0;
+
+                while ((val /= 10) != 0)
+                {
+                    ++count;
+                }
+
+                return count;
             }
 
             static constexpr UInt max_man()
-- 
2.43.0


From 024010421a2df865cd6435a92a982d5f58234e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 12/56] fix: a decimal silently lost the high digits of a
 mantissa that does not fit

---
 Awl/Decimal.h | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 6683be7..16c6e97 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -17,6 +17,7 @@
 #include <array>
 #include <cmath>
 #include <tuple>
+#include <stdexcept>
 
 namespace awl
 {
@@ -129,13 +130,13 @@ namespace awl
         {
             if (val >= 0)
             {
+                set_unsigned_mantissa(static_cast<UInt>(val));
                 m_data.set_positive(true);
-                m_data.set_man(static_cast<UInt>(val));
             }
             else
             {
+                set_unsigned_mantissa(static_cast<UInt>(0) - static_cast<UInt>(val));
                 m_data.set_positive(false);
-                m_data.set_man(static_cast<UInt>(-val));
             }
         }
         
@@ -146,6 +147,11 @@ namespace awl
 
         constexpr void set_unsigned_mantissa(UInt val)
         {
+            if (val > max_mantissa())
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             m_data.set_man(val);
         }
 
@@ -173,7 +179,7 @@ namespace awl
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
             //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_mantissa(static_cast<Int>(val * static_cast<double>(denominator())));
+            set_mantissa(float_to_mantissa(val * static_cast<double>(denominator())));
 
             return *this;
         }
@@ -404,7 +410,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::llround(val * static_cast<double>(d.denominator()))));
+            d.set_mantissa(float_to_mantissa(std::round(val * static_cast<double>(d.denominator()))));
 
             return d;
         }
@@ -421,7 +427,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::ceil(val * static_cast<double>(d.denominator()))));
+            d.set_mantissa(float_to_mantissa(std::ceil(val * static_cast<double>(d.denominator()))));
 
             return d;
         }
@@ -438,7 +444,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::floor(val * static_cast<double>(d.denominator()))));
+            d.set_mantissa(float_to_mantissa(std::floor(val * static_cast<double>(d.denominator()))));
 
             return d;
         }
@@ -458,6 +464,22 @@ namespace awl
 
     private:
 
+        //Drops the fractional part and throws if the rest does not fit into the mantissa.
+        template <class Float>
+        static constexpr Int float_to_mantissa(Float val)
+        {
+            //This is a power of two, there is no rounding.
+            const Float limit = static_cast<Float>(static_cast<double>(max_mantissa()) + 1.0);
+
+            //False for NaN.
+            if (-limit < val && val < limit)
+            {
+                return static_cast<Int>(val);
+            }
+
+            throw std::logic_error("Decimal overflow.");
+        }
+
         //If check==false losing precision (trimming) is allowed.
         constexpr void rescale_self(uint8_t digits, bool check = true)
         {
-- 
2.43.0


From df617aaf373433c2135f14108b83a72a58d1ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 13/56] fix: multiplication of decimals did not throw if an
 overflow occurred

---
 Awl/Decimal.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 16c6e97..a684e01 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -864,7 +864,21 @@ namespace awl
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     constexpr decimal<UInt, exp_len, DataTemplate> multiply(decimal<UInt, exp_len, DataTemplate> a, decimal<UInt, exp_len, DataTemplate> b)
     {
-        decimal<UInt, exp_len, DataTemplate> c(a.exponent() + b.exponent());
+        using Decimal = decimal<UInt, exp_len, DataTemplate>;
+
+        const unsigned digits = static_cast<unsigned>(a.exponent()) + b.exponent();
+
+        if (digits > Decimal::max_exponent())
+        {
+            throw std::logic_error("Too many digits in a decimal.");
+        }
+
+        if (a.unsigned_mantissa() != 0 && b.unsigned_mantissa() > Decimal::max_mantissa() / a.unsigned_mantissa())
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        Decimal c(static_cast<uint8_t>(digits));
 
         c.set_mantissa(a.mantissa() * b.mantissa());
 
-- 
2.43.0


From 2cf3f93c0b11ec1015bcf584ed9d043610ea2ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 14/56] fix: a decimal zero with a minus was less than zero

---
 Awl/Decimal.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index a684e01..d4a9363 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -186,7 +186,7 @@ namespace awl
 
         bool operator == (const decimal& other) const
         {
-            if (m_data.positive() == other.m_data.positive())
+            if (below_zero() == other.below_zero())
             {
                 const decimal a = normalize();
                 const decimal b = other.normalize();
@@ -464,6 +464,12 @@ namespace awl
 
     private:
 
+        //Zero can have either sign.
+        constexpr bool below_zero() const
+        {
+            return negative() && m_data.man() != 0;
+        }
+
         //Drops the fractional part and throws if the rest does not fit into the mantissa.
         template <class Float>
         static constexpr Int float_to_mantissa(Float val)
@@ -586,21 +592,21 @@ namespace awl
         template <class Comp>
         static constexpr bool compare(const decimal& a, const decimal& b, Comp comp)
         {
-            if (a.negative() && b.negative())
+            if (a.below_zero() && b.below_zero())
             {
                 return compare_positive(b, a, comp);
             }
 
-            if (a.positive() && b.positive())
+            if (!a.below_zero() && !b.below_zero())
             {
                 return compare_positive(a, b, comp);
             }
 
             //1 < 0
 
-            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() ? 0 : 1; };
+            auto make_sign = [](const decimal& d) -> uint8_t { return d.below_zero() ? 1 : 0; };
             
-            return comp(make_sign(b.m_data), make_sign(a.m_data));
+            return comp(make_sign(b), make_sign(a));
         }
 
         template <class Comp>
-- 
2.43.0


From cd54ca4869f4c334a69c902da0cfdd9fabf026d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 15/56] fix: a long row of zeros or an empty string was parsed
 as a wrong decimal

---
 Awl/Decimal.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index d4a9363..848ac3d 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -661,7 +661,7 @@ namespace awl
         }
 
         template <class C>
-        static constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, uint8_t, UInt>
+        static constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, std::size_t, UInt>
             parse_int(std::basic_string_view<C> fixed_string, bool point_terminator);
 
         template <class C>
@@ -675,7 +675,7 @@ namespace awl
             throw std::logic_error("Not a valid decimal string.");
         }
 
-        static constexpr void check_exp(uint8_t digits)
+        static constexpr void check_exp(std::size_t digits)
         {
             if (digits > max_exponent())
             {
@@ -712,7 +712,7 @@ namespace awl
         {
             typename string_view::const_iterator i = fixed_string.begin();
 
-            if (*i == '+' || *i == '-')
+            if (i != fixed_string.end() && (*i == '+' || *i == '-'))
             {
                 positive = *i == '+';
 
@@ -753,7 +753,7 @@ namespace awl
         decimal result;
 
         result.m_data.set_man(int_part + fractional_part);
-        result.m_data.set_exp(digits);
+        result.m_data.set_exp(static_cast<uint8_t>(digits));
 
         if (!positive)
         {
@@ -791,12 +791,12 @@ namespace awl
 
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     template <class C>
-    constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, uint8_t, UInt>
+    constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, std::size_t, UInt>
         decimal<UInt, exp_len, DataTemplate>::parse_int(std::basic_string_view<C> fixed_string, bool point_terminator)
     {
-        uint8_t digit_count = 0;
+        std::size_t digit_count = 0;
 
-        uint8_t zero_count = 0;
+        std::size_t zero_count = 0;
 
         UInt val = 0;
 
@@ -834,7 +834,7 @@ namespace awl
                 else
                 {
                     //flush accumulated zeros
-                    for (uint8_t i = 0; i < zero_count; ++i)
+                    for (std::size_t i = 0; i < zero_count; ++i)
                     {
                         do_append(0);
                     }
-- 
2.43.0


From c0193d37384a0f72da94c1cbd71c4f0364c2fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 16/56] fix: casting a decimal to an integer truncated the
 mantissa before the division

---
 Awl/Decimal.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 848ac3d..cb3a8a0 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -93,7 +93,17 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, Float> cast() const
         {
-            return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                //Drop the fractional part, the mantissa itself may not fit.
+                const Int int_part = static_cast<Int>(unsigned_mantissa() / denominator());
+
+                return static_cast<Float>(positive() ? int_part : -int_part);
+            }
+            else
+            {
+                return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            }
         }
 
         //IEEE 754 double stores 2^53 without losing precision that is 15 decimal digits,
-- 
2.43.0


From d7deb0ec660c92ef7ee16e89324e890c02ac0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 17/56] fix: a decimal made of a 64-bit integer lost its low
 digits

---
 Awl/Decimal.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index cb3a8a0..9d5bb3a 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -17,6 +17,7 @@
 #include <array>
 #include <cmath>
 #include <tuple>
+#include <type_traits>
 #include <stdexcept>
 
 namespace awl
@@ -188,8 +189,30 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
-            //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_mantissa(float_to_mantissa(val * static_cast<double>(denominator())));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                //A double does not represent all the 64-bit integers.
+                constexpr bool wider = sizeof(UInt) < sizeof(Float);
+
+                using Wide = std::conditional_t<wider, std::make_unsigned_t<std::conditional_t<wider, Float, unsigned>>, UInt>;
+
+                const bool positive_val = !(val < 0);
+
+                const Wide magnitude = positive_val ? static_cast<Wide>(val) : static_cast<Wide>(0) - static_cast<Wide>(val);
+
+                if (magnitude > static_cast<Wide>(max_mantissa() / denominator()))
+                {
+                    throw std::logic_error("Decimal overflow.");
+                }
+
+                m_data.set_positive(positive_val);
+                m_data.set_man(static_cast<UInt>(magnitude) * denominator());
+            }
+            else
+            {
+                //We do not round the floating point value here so abs(decimal) < abs(val).
+                set_mantissa(float_to_mantissa(val * static_cast<double>(denominator())));
+            }
 
             return *this;
         }
-- 
2.43.0


From 1760a4dc46c0f8fecdb53cb00a89eb810973f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 18/56] fix: decimal_to_nanoseconds was wrong if there were
 more than nine fractional digits

---
 Awl/DecimalTime.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalTime.h b/Awl/DecimalTime.h
index 8c790b5..7374edb 100644
--- a/Awl/DecimalTime.h
+++ b/Awl/DecimalTime.h
@@ -19,6 +19,7 @@ namespace awl
         //typename Duration::rep rep = dum_dec.mantissa() / Duration::rep::num;
         //return Duration(static_cast<typename Duration::rep>(dec.extend(9).mantissa()));
 
-        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.extend(9).mantissa()));
+        //The digits after the ninth one are dropped.
+        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.rescale(9, false).mantissa()));
     }
 }
-- 
2.43.0


From f3acce5cc17601b2ccc68405eee6f1fd6a97e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 19/56] fix: a 128-bit integer longer than the width of the
 field was printed with extra digits

---
 Awl/String.h | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 7fd7ed5..43c105d 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -410,17 +410,6 @@ namespace awl
             }
         }
 
-        // There is always at least one digit.
-        if (out.width() > 1 && len > out.width())
-        {
-            const std::streamsize diff = len - out.width();
-            
-            for (std::streamsize i = 0; i < diff; ++i)
-            {
-                out << out.fill();
-            }
-        }
-
         constexpr const C zero_symbol = static_cast<C>('0');
 
         std::size_t length = static_cast<std::size_t>(len);
@@ -464,7 +453,7 @@ namespace awl
         {
             out << static_cast<C>('-');
 
-            return out << static_cast<__uint128_t>(-val);
+            return out << (static_cast<__uint128_t>(0) - static_cast<__uint128_t>(val));
         }
 
         return out << static_cast<__uint128_t>(val);
-- 
2.43.0


From 3aaf1b14754cc2e2b2888718b82dca165797e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 20/56] fix: reading a collection, an optional or a pointer
 kept the previous contents of the object

---
 Awl/Io/Rw/CollectionReadWrite.h | 10 ++++++++++
 Awl/Io/Rw/OptionalReadWrite.h   |  4 ++++
 Awl/Io/Rw/PointerReadWrite.h    |  8 ++++++++
 3 files changed, 22 insertions(+)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..855c12e 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,6 +35,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -53,6 +55,12 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        //A default constructed ring has nothing to clear.
+        if (!coll.empty())
+        {
+            coll.clear();
+        }
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -72,6 +80,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..16703ac 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             p = std::make_shared<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
@@ -60,6 +64,10 @@ namespace awl::io
 
             p = std::make_unique<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From b6e8aa273556ff3a2d705f04285a0e592ee6448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 21/56] fix: a wrong index of a variant alternative in a stream
 was out-of-range access

---
 Awl/Io/Rw/VariantReadWrite.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index e476a30..e61cad3 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -55,7 +55,10 @@ namespace awl::io
                 std::size_t index;
                 Read(in, index, ctx);
 
-                assert(index < std::variant_size_v<V>);
+                if (index >= std::variant_size_v<V>)
+                {
+                    throw CorruptionException();
+                }
 
                 vra[index]->ReadAlternative(in, v, ctx);
             }
-- 
2.43.0


From 846ff49a0ddad095285523f609165e25017c9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 22/56] fix: a very long wide string passed the check of the
 string limit

---
 Awl/Io/Rw/StringReadWrite.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Awl/Io/Rw/StringReadWrite.h b/Awl/Io/Rw/StringReadWrite.h
index f931d76..720c462 100644
--- a/Awl/Io/Rw/StringReadWrite.h
+++ b/Awl/Io/Rw/StringReadWrite.h
@@ -9,6 +9,7 @@
 #include "Awl/Io/IoException.h"
 #include "Awl/StringFormat.h"
 
+#include <limits>
 #include <string>
 #include <type_traits>
 
@@ -23,11 +24,14 @@ namespace awl::io
     }
 
     template <class Context>
-    void CheckStringLimit(const Context& ctx, size_t string_length)
+    void CheckStringLimit(const Context& ctx, size_t len, size_t char_size)
     {
         if constexpr (limited_context<Context>)
         {
-            CheckStringLimit(string_length, ctx.max_length());
+            //len * char_size can overflow if the length is read from a corrupted stream.
+            constexpr size_t max_size = std::numeric_limits<size_t>::max();
+
+            CheckStringLimit(len > max_size / char_size ? max_size : len * char_size, ctx.max_length());
         }
     }
 
@@ -45,9 +49,9 @@ namespace awl::io
 
         Read(s, len, ctx);
 
-        const size_t string_length = len * sizeof(Char);
+        CheckStringLimit(ctx, len, sizeof(Char));
 
-        CheckStringLimit(ctx, string_length);
+        const size_t string_length = len * sizeof(Char);
 
         val.resize(len);
 
@@ -69,9 +73,9 @@ namespace awl::io
     {
         typename std::basic_string<Char>::size_type len = val.length();
 
-        const size_t string_length = len * sizeof(Char);
+        CheckStringLimit(ctx, len, sizeof(Char));
 
-        CheckStringLimit(ctx, string_length);
+        const size_t string_length = len * sizeof(Char);
 
         Write(s, len, ctx);
 
-- 
2.43.0


From 29dfd606fdd0fe8d0be821373b03cd355ff7f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 23/56] fix: a reader considered the prototypes identical after
 a type mismatch

---
 Awl/Io/Reader.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..7cdf56a 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -379,12 +379,12 @@ namespace awl::io
                 protoMaps.resize(old_struct_index + 1);
             }
             
+            //If MakeProtoMap throws, nothing is remembered.
+            ProtoMap new_map{ new_index, MakeProtoMap<Struct>(old_struct_index, new_index) };
+
             std::optional<ProtoMap> & pm = protoMaps[old_struct_index];
 
-            pm = ProtoMap{};
-            assert(pm.has_value());
-            pm->newStructIndex = new_index;
-            pm->fieldMap = MakeProtoMap<Struct>(old_struct_index, new_index);
+            pm = std::move(new_map);
 
             return pm->fieldMap;
         }
-- 
2.43.0


From 5a2f73c928f8fc897b01e375887a5de18c70ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 24/56] fix: a write error of the last block of a hash stream
 terminated the process

---
 Awl/Io/HashStream.h          | 25 +++++++++++++++++++++----
 Awl/Io/HashingSerializable.h |  4 ++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..420aacb 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -171,15 +171,20 @@ namespace awl
             {
             }
 
+            //A destructor can't throw, so call Flush() explicitly to know if the last block has been written.
             ~HashOutputStream()
             {
-                Flush();
+                try
+                {
+                    Flush();
+                }
+                catch (...)
+                {
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
-        private:
-
             void Flush()
             {
                 if (!m_v.empty())
@@ -188,12 +193,24 @@ namespace awl
 
                     m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                    try
+                    {
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        //Do not write the same block with one more hash again.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
             }
 
+        private:
+
             Hash m_hash;
 
             UnderlyingStream& m_out;
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..7f39872 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,8 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            out.Flush();
         }
 
     protected:
@@ -64,6 +66,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Flush();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From 9c9dfd270da0e5c7db4df1c661b8be9eaf721ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 25/56] fix: the old value was not restored if the exception
 was not IoException

---
 Awl/Io/VersionTolerantSerializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/VersionTolerantSerializable.h b/Awl/Io/VersionTolerantSerializable.h
index 26568c4..f8b5aaf 100644
--- a/Awl/Io/VersionTolerantSerializable.h
+++ b/Awl/Io/VersionTolerantSerializable.h
@@ -62,7 +62,7 @@ namespace awl::io
                     {
                         Read(in, m_val);
                     }
-                    catch (const IoException&)
+                    catch (...)
                     {
                         // Restore old value.
                         ReadSnapshot(v);
-- 
2.43.0


From 8363463f47afaf854e42b5e467642ef8400648db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 26/56] fix: adding a field to an empty structure made its old
 version unreadable

---
 Awl/Io/Reader.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 7cdf56a..ec82522 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -233,9 +233,10 @@ namespace awl::io
 
                 const std::vector<size_t> name_map = this->template FindProtoMap<Struct>(old_struct_index);
 
-                //An empty map means either an empty structure or equal prototypes
-                //(the prototypes of empty structures are equal).
-                if (name_map.empty())
+                //An empty map means either an empty old structure or equal prototypes,
+                //but the new structure can have fields that the old one does not have.
+                if (name_map.empty() && (oldPrototypes[old_struct_index].GetCount() != 0 ||
+                    this->template FindNewPrototype<Struct>().GetCount() == 0))
                 {
                     //Read in the same way we write it.
                     ReadTuplizable(s, val);
-- 
2.43.0


From 5c4802c06c35aa40c406f52c5145054c03133d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 27/56] fix: reading zero bytes from a hash stream passed a
 null pointer to memcpy

---
 Awl/Io/HashStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 420aacb..60720a0 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -100,7 +100,7 @@ namespace awl
             {
                 assert(m_i <= m_block.end());
                 
-                if (m_i != m_block.end())
+                if (m_i != m_block.end() && flushed_count != count)
                 {
                     const size_t available_count = static_cast<size_t>(m_block.end() - m_i);
 
-- 
2.43.0


From bdf64a615c278ff217a75af24532d377fd402358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 28/56] fix: AtomicStorage keeps the only good copy of the
 settings when a save or load is interrupted

---
 Awl/Io/AtomicStorage.cpp | 25 +++++++++++++------------
 Awl/Io/AtomicStorage.h   | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..dedd1c3 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -18,13 +18,14 @@ bool AtomicStorage::Load(Value& val)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
+        m_masterDamaged = true;
+
         WriteToStream(m_s, val);
-    }
 
-    ClearBackup();
+        m_masterDamaged = false;
+
+        ClearBackup();
 
-    if (backup_success)
-    {
         return true;
     }
 
@@ -32,6 +33,12 @@ bool AtomicStorage::Load(Value& val)
 
     bool master_success = LoadFromFile(val, m_s, LogLevel::Warning);
 
+    //If neither file can be read now, keep them both.
+    if (master_success)
+    {
+        ClearBackup();
+    }
+
     return master_success;
 }
 
@@ -39,9 +46,7 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (p_mutex == nullptr)
     {
-        WriteToStream(m_backup, val);
-
-        WriteToStream(m_s, val);
+        SaveImpl([&val](UniqueStream& s) { WriteToStream(s, val); });
     }
     else
     {
@@ -53,12 +58,8 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         lock.unlock();
 
-        WriteSnapshot(m_backup, snapshotable, v);
-
-        WriteSnapshot(m_s, snapshotable, v);
+        SaveImpl([&snapshotable, &v](UniqueStream& s) { WriteSnapshot(s, snapshotable, v); });
     }
-    
-    ClearBackup();
 }
 
 bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level)
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 7c40d48..245f424 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -42,6 +42,7 @@ namespace awl::io
         {
             m_s = std::move(other.m_s);
             m_backup = std::move(other.m_backup);
+            m_masterDamaged = other.m_masterDamaged;
             return *this;
         }
 
@@ -58,6 +59,8 @@ namespace awl::io
 
         bool Open(const awl::String& file_name, const awl::String& backup_name)
         {
+            m_masterDamaged = false;
+
             try
             {
                 m_s = awl::io::CreateUniqueFile(file_name);
@@ -84,6 +87,7 @@ namespace awl::io
         {
             m_s = {};
             m_backup = {};
+            m_masterDamaged = false;
         }
 
     private:
@@ -116,6 +120,31 @@ namespace awl::io
             WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
         }
 
+        //Writes the value to the both files with a function writing to a given file.
+        template <class Func>
+        void SaveImpl(Func&& write)
+        {
+            //If writing the master file failed the backup file contains the only good copy.
+            if (!m_masterDamaged)
+            {
+                //Do not mix the blocks of two values if writing is interrupted.
+                if (m_backup.GetLength() != 0)
+                {
+                    ClearBackup();
+                }
+
+                write(m_backup);
+            }
+
+            m_masterDamaged = true;
+
+            write(m_s);
+
+            m_masterDamaged = false;
+
+            ClearBackup();
+        }
+
         bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
 
         void ClearBackup()
@@ -128,5 +157,8 @@ namespace awl::io
         Logger& m_logger;
         UniqueStream m_s;
         UniqueStream m_backup;
+
+        //The master file has not been written completely, and the backup file contains the value.
+        bool m_masterDamaged = false;
     };
 }
-- 
2.43.0


From 1e9b01c166f1c8900887b90be11da3a24f449a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 29/56] fix: OptionalStorage::Load does not throw when the
 storage is not opened or the files can't be restored

---
 Awl/Io/OptionalStorage.cpp | 21 +++++++++++++++++++++
 Awl/Io/OptionalStorage.h   |  5 +----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/OptionalStorage.cpp b/Awl/Io/OptionalStorage.cpp
index 164c9c1..3347c9e 100644
--- a/Awl/Io/OptionalStorage.cpp
+++ b/Awl/Io/OptionalStorage.cpp
@@ -28,6 +28,27 @@ bool OptionalStorage::Open(const awl::String& file_name, const awl::String& back
     return existing;
 }
 
+bool OptionalStorage::Load(Value& val)
+{
+    if (!m_storage.IsOpened())
+    {
+        return false;
+    }
+
+    try
+    {
+        return m_storage.Load(val);
+    }
+    catch (const IoException& e)
+    {
+        //The value has been loaded, but the files have not been updated.
+        m_logger.warning(awl::format() << _T("Settings have been loaded, but the settings files were not restored. ") <<
+            _T("Error message: ") << e.What());
+
+        return true;
+    }
+}
+
 void OptionalStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (m_storage.IsOpened())
diff --git a/Awl/Io/OptionalStorage.h b/Awl/Io/OptionalStorage.h
index 66605a9..138ed0c 100644
--- a/Awl/Io/OptionalStorage.h
+++ b/Awl/Io/OptionalStorage.h
@@ -51,10 +51,7 @@ namespace awl::io
 
         bool Open(const awl::String& file_name, const awl::String& backup_name);
 
-        bool Load(Value& val)
-        {
-            return m_storage.Load(val);
-        }
+        bool Load(Value& val);
 
         void Save(const Value& val, IMutex* p_mutex = nullptr);
 
-- 
2.43.0


From 29173e34a7ff8a69058f5658d05388d7faf6c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 30/56] fix: End() is true when the position of a Posix stream
 is beyond the end of the file

---
 Platforms/Posix/Awl/Io/NativeStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Platforms/Posix/Awl/Io/NativeStream.h b/Platforms/Posix/Awl/Io/NativeStream.h
index 91af013..7508a13 100644
--- a/Platforms/Posix/Awl/Io/NativeStream.h
+++ b/Platforms/Posix/Awl/Io/NativeStream.h
@@ -78,7 +78,8 @@ namespace awl::io
 
         bool End() override
         {
-            return GetPosition() == GetLength();
+            //The position can be beyond the end of the file.
+            return GetPosition() >= GetLength();
         }
 
         void Seek(std::size_t pos, bool begin = true) override
-- 
2.43.0


From fc5ee7993cabf6e83020c1e90131ac9b813d49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 31/56] fix: moving a UniqueHandle to itself does not close it

---
 Platforms/Posix/Awl/Io/UniqueHandle.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Platforms/Posix/Awl/Io/UniqueHandle.h b/Platforms/Posix/Awl/Io/UniqueHandle.h
index 712ef3b..defa104 100644
--- a/Platforms/Posix/Awl/Io/UniqueHandle.h
+++ b/Platforms/Posix/Awl/Io/UniqueHandle.h
@@ -42,11 +42,15 @@ namespace awl::io
 
         UniqueHandle& operator=(UniqueHandle&& other) noexcept
         {
-            Close();
+            //Not an assignment to itself.
+            if (this != &other)
+            {
+                Close();
 
-            m_h = other.m_h;
+                m_h = other.m_h;
 
-            other.m_h = NullHandleValue;
+                other.m_h = NullHandleValue;
+            }
 
             return *this;
         }
-- 
2.43.0


From 97179d5e4274d1c69f5d811d9950399dabc88de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 32/56] fix: UpdateQueue releases the cleared functions and
 does not lose a block if copying a function throws

---
 Awl/UpdateQueue.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index cb1b6bb..0e236af 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -55,6 +55,12 @@ namespace awl
         {
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
+            for (Message * p_message : pendingMessages)
+            {
+                //release lambda expression
+                p_message->Func = std::function<void(Args ...)>();
+            }
+
             //put them directly to freeBlocks, but not to renderingMessages
             //note that using pendingMessages.clear() here will result in memory leak
             freeBlocks.push_back(pendingMessages);
@@ -73,11 +79,12 @@ namespace awl
             }
             else
             {
+                //copying can throw, so the block is still in the list
+                freeBlocks.front()->Func = func;
+
                 p_message = freeBlocks.pop_front();
             }
 
-            p_message->Func = func;
-
             pendingMessages.push_back(p_message);
         }
 
-- 
2.43.0


From 49d492ebfc69ff79db6173791f044eaf734d1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 33/56] fix: a pooled object is finalized before it becomes
 available

---
 Awl/ObjectPool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Awl/ObjectPool.h b/Awl/ObjectPool.h
index 23c7dda..460bc71 100644
--- a/Awl/ObjectPool.h
+++ b/Awl/ObjectPool.h
@@ -69,8 +69,10 @@ namespace awl
             {
                 p_this->m_used.erase(p);
                 //p->pooled_object::exclude();
-                p_this->m_free.push_back(p);
+
+                //It can't be reused or deleted until it has been finalized.
                 p->Finalize();
+                p_this->m_free.push_back(p);
             }
         };
 
-- 
2.43.0


From 8b944652fb7087091e9f0b78017484c785c61877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 34/56] fix: moving a scope_guard keeps its engaged state and
 does not lose the action of the target

---
 Awl/ScopeGuard.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..3967a92 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,15 +23,27 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(other.engaged)
         {
             other.engaged = false;
         }
 
         scope_guard & operator = (scope_guard && other)
         {
-            free = std::move(other.free);
-            other.engaged = false;
+            if (this != &other)
+            {
+                //The guarded action is not lost.
+                if (engaged)
+                {
+                    engaged = false;
+                    free();
+                }
+
+                free = std::move(other.free);
+                engaged = other.engaged;
+                other.engaged = false;
+            }
+
             return *this;
         }
 
-- 
2.43.0


From f71a254c3352b97a311f10d3eb3ce0337b08ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 35/56] fix: awl::unique_ptr move assignment is safe for the
 same object and for an owned source

---
 Awl/UniquePtr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Awl/UniquePtr.h b/Awl/UniquePtr.h
index 03bda6d..2539cf6 100644
--- a/Awl/UniquePtr.h
+++ b/Awl/UniquePtr.h
@@ -65,9 +65,8 @@ namespace awl
 
         constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
         {
-            reset(other.m_p);
-
-            other.m_p = nullptr;
+            //It can be the same object, and it can be owned by the object that is being deleted.
+            reset(other.release());
 
             return *this;
         }
-- 
2.43.0


From 250792c720cedadce9907f282b45b30e8863436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 36/56] fix: moving a coroutine task to itself does not destroy
 it, a completed UpdateTask is freed by release()

---
 Awl/Coro/ProcessTask.h |  8 ++++++--
 Awl/Coro/UpdateTask.h  | 20 ++++++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/Awl/Coro/ProcessTask.h b/Awl/Coro/ProcessTask.h
index 8dd3414..6bf2ee4 100644
--- a/Awl/Coro/ProcessTask.h
+++ b/Awl/Coro/ProcessTask.h
@@ -184,9 +184,13 @@ namespace awl
 
         ProcessTask& operator=(ProcessTask&& other) noexcept
         {
-            free();
+            //Not an assignment to itself.
+            if (this != &other)
+            {
+                free();
 
-            m_h = std::exchange(other.m_h, nullptr);
+                m_h = std::exchange(other.m_h, nullptr);
+            }
 
             return *this;
         }
diff --git a/Awl/Coro/UpdateTask.h b/Awl/Coro/UpdateTask.h
index 423a71f..5b4f8ea 100644
--- a/Awl/Coro/UpdateTask.h
+++ b/Awl/Coro/UpdateTask.h
@@ -21,9 +21,13 @@ namespace awl
 
         UpdateTask& operator=(UpdateTask&& other) noexcept
         {
-            free();
+            //Not an assignment to itself.
+            if (this != &other)
+            {
+                free();
 
-            m_h = std::exchange(other.m_h, nullptr);
+                m_h = std::exchange(other.m_h, nullptr);
+            }
 
             return *this;
         }
@@ -146,9 +150,17 @@ namespace awl
     {
         if (m_h)
         {
-            m_h.promise().m_owned = false;
+            if (m_h.done())
+            {
+                //The coroutine has been completed, so it will not destroy itself.
+                free();
+            }
+            else
+            {
+                m_h.promise().m_owned = false;
 
-            m_h = nullptr;
+                m_h = nullptr;
+            }
         }
     }
 
-- 
2.43.0


From ad1172deeba0830ea9070063e602d6006f7ce8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 37/56] fix: a stop state without sources was deleted while
 tokens still refer to it

---
 Extras/JThread/JThreadExtras/stop_token.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Extras/JThread/JThreadExtras/stop_token.hpp b/Extras/JThread/JThreadExtras/stop_token.hpp
index 44839fd..c643de6 100644
--- a/Extras/JThread/JThreadExtras/stop_token.hpp
+++ b/Extras/JThread/JThreadExtras/stop_token.hpp
@@ -53,7 +53,8 @@ struct __stop_state {
   void __remove_token_reference() noexcept {
     auto __oldState =
         __state_.fetch_sub(__token_ref_increment, std::memory_order_acq_rel);
-    if (__oldState < (__token_ref_increment + __source_ref_increment)) {
+    // It was the last token and there are no sources.
+    if (__oldState < (__token_ref_increment + __token_ref_increment)) {
       delete this;
     }
   }
-- 
2.43.0


From 7db6c7c13062f46434969620be6433b51d8ce683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:39 +0000
Subject: [PATCH 38/56] fix: sleep_for could miss a stop request that comes
 between checking the token and waiting

---
 Awl/Sleep.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 75c729d..8bd0dee 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -20,8 +20,6 @@ namespace awl
 
         std::mutex mutex;
 
-        std::unique_lock<std::mutex> lock{ mutex };
-
         // ThreadSanitizer: double lock of a mutex
         // std::condition_variable_any().wait_for(lock, token, d, [&token]
         // {
@@ -31,12 +29,20 @@ namespace awl
         std::stop_callback stop_wait
         {
             token,
-            [&cv]()
+            [&mutex, &cv]()
             {
+                //The notification can't come between checking the token and waiting.
+                {
+                    std::lock_guard<std::mutex> guard{ mutex };
+                }
+
                 cv.notify_one();
             }
         };
 
+        //The callback above can be called by its constructor, so the mutex is not locked before.
+        std::unique_lock<std::mutex> lock{ mutex };
+
         cv.wait_for(lock, d, [&token]()
         {
             return token.stop_requested();
-- 
2.43.0


From 5bbe316a6346262a5102d612d2d32e3ba4bb4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:39 +0000
Subject: [PATCH 39/56] fix: the thread of watch_dog used the log function
 before it was constructed and after it was destroyed

---
 Awl/WatchDog.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/WatchDog.h b/Awl/WatchDog.h
index b0b1543..fa15dd2 100644
--- a/Awl/WatchDog.h
+++ b/Awl/WatchDog.h
@@ -21,9 +21,9 @@ namespace awl
         watch_dog(std::stop_token token, std::chrono::nanoseconds timeout, std::function<void()> log) :
             m_token(token),
             m_timeout(timeout),
+            m_log(log),
             m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1)),
-            m_callback(m_token, std::bind(&watch_dog::callback_proc, this)),
-            m_log(log)
+            m_callback(m_token, std::bind(&watch_dog::callback_proc, this))
         {
         }
 
@@ -60,10 +60,11 @@ namespace awl
 
         std::chrono::nanoseconds m_timeout;
 
+        //It is used by the thread.
+        std::function<void()> m_log;
+
         std::jthread m_thread;
 
         std::stop_callback<std::function<void()>> m_callback;
-
-        std::function<void()> m_log;
     };
 }
-- 
2.43.0


From 5297a09f52f97779ca1a00d0b0180d5859ea8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 40/56] fix: TimeQueue resumed the coroutines in the reverse
 order of time

---
 Awl/Testing/TimeQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TimeQueue.h b/Awl/Testing/TimeQueue.h
index 5cee5f5..69e01bb 100644
--- a/Awl/Testing/TimeQueue.h
+++ b/Awl/Testing/TimeQueue.h
@@ -49,7 +49,8 @@ namespace awl::testing
             std::coroutine_handle<> handle;
         };
 
-        using Compare = member_compare<&Task::targetTime>;
+        //The task with the earliest time is at the top.
+        using Compare = member_compare<&Task::targetTime, std::greater<>>;
 
         std::priority_queue<Task, std::vector<Task>, Compare> m_tasks;
     };
-- 
2.43.0


From d0b371f811c622f56ca97b690285a9d85bb48aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 41/56] fix: an unsigned int attribute greater than INT_MAX was
 ignored

---
 Awl/Testing/ScalarFormatter.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/ScalarFormatter.h b/Awl/Testing/ScalarFormatter.h
index d33112b..b9fd2c7 100644
--- a/Awl/Testing/ScalarFormatter.h
+++ b/Awl/Testing/ScalarFormatter.h
@@ -7,6 +7,9 @@
 
 #include "Awl/String.h"
 
+#include <limits>
+#include <stdexcept>
+#include <string>
 #include <type_traits>
 
 namespace awl
@@ -62,7 +65,14 @@ namespace awl
 
             static void FromString(const String & s, unsigned int & val)
             {
-                val = static_cast<unsigned int>(std::stoi(s));
+                const long long n = std::stoll(s);
+
+                if (n < std::numeric_limits<int>::min() || n > std::numeric_limits<unsigned int>::max())
+                {
+                    throw std::out_of_range("stoi");
+                }
+
+                val = static_cast<unsigned int>(n);
             }
 
             static void FromString(const String & s, long & val)
-- 
2.43.0


From 3e07ce79a32e2edd5551195d3a4435cf4d07d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 42/56] fix: the default value of an attribute was reported as
 its current value

---
 Awl/Testing/LocalAttribute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Testing/LocalAttribute.h b/Awl/Testing/LocalAttribute.h
index f524bb5..c1541da 100644
--- a/Awl/Testing/LocalAttribute.h
+++ b/Awl/Testing/LocalAttribute.h
@@ -46,7 +46,7 @@ namespace awl
 
             String GetDefaultValue() const override
             {
-                return Formatter<T>::ToString(myVal);
+                return Formatter<T>::ToString(defaultVal);
             }
 
             String GetTypeName() const override
-- 
2.43.0


From 1c176cdcde2d8fad93f50de5dd3afa6d44d9e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 43/56] fix: rounding of negative numbers was wrong

---
 Awl/Math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/Math.h b/Awl/Math.h
index 467eb20..9f6a0f9 100644
--- a/Awl/Math.h
+++ b/Awl/Math.h
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <type_traits>
 #include <functional>
 
@@ -33,7 +34,7 @@ namespace awl::math
     template <class I, class F>
     inline typename std::enable_if<std::is_integral<I>::value && std::is_floating_point<F>::value, I>::type round(F f)
     {
-        return static_cast<I>(f + 0.5f);
+        return static_cast<I>(std::round(f));
     }
 
     //std::clamp in C++17 is a bit different, it is constexpr and returns const T&
-- 
2.43.0


From 2c36d495e1346ca758f039c780bb642d97ba0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 44/56] fix: Assert::Throws did not fail if the expected type
 is a base of TestException

---
 Awl/Testing/TestAssert.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TestAssert.h b/Awl/Testing/TestAssert.h
index 5a6fc9e..bece4b1 100644
--- a/Awl/Testing/TestAssert.h
+++ b/Awl/Testing/TestAssert.h
@@ -51,13 +51,21 @@ namespace awl::testing
         template <class E, class Func>
         static void Throws(Func && func)
         {
+            bool thrown = false;
+
             try
             {
                 func();
-                Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
             catch (const E &)
             {
+                thrown = true;
+            }
+
+            //TestException is not thrown inside the try block, because it can be derived from E.
+            if (!thrown)
+            {
+                Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
         }
     };
-- 
2.43.0


From dd66cd74548b88c0c9349320379afe1c183a8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 45/56] fix: the exit code was zero if the tests failed, and
 non-zero if they passed

---
 Awl/Testing/TestConsole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Awl/Testing/TestConsole.cpp b/Awl/Testing/TestConsole.cpp
index 7a743f1..0b1bbbc 100644
--- a/Awl/Testing/TestConsole.cpp
+++ b/Awl/Testing/TestConsole.cpp
@@ -83,7 +83,7 @@ namespace awl::testing
 
             awl::cout() << _T("Total ") << test_map->GetCount(f) << _T(" tests.") << std::endl;
 
-            return 0;
+            return true;
         }
 
         auto test_map = awl::testing::CreateTestMap();
@@ -134,7 +134,7 @@ namespace awl::testing
     {
         try
         {
-            return RunTests();
+            return RunTests() ? 0 : 1;
         }
         catch (const TestException& e)
         {
-- 
2.43.0


From 41ed6f6352437ba68cf1daa0203b14cd4828b6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 46/56] fix: String.h did not compile with
 boost::multiprecision and narrow strings, wide output included

---
 Awl/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/String.h b/Awl/String.h
index 43c105d..0341b90 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -383,7 +383,7 @@ namespace boost::multiprecision
 
         a_out << val;
 
-        return out << awl::FromAString(a_out.str());
+        return out << a_out.str().c_str();
     }
 }
 
-- 
2.43.0


From 665efd9368b3f5c309242a25fa179147ecbe41ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 47/56] fix: a multiprecision decimal made of the least integer
 was refused

---
 Awl/Decimal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 9d5bb3a..d4a9e8c 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -198,7 +198,7 @@ namespace awl
 
                 const bool positive_val = !(val < 0);
 
-                const Wide magnitude = positive_val ? static_cast<Wide>(val) : static_cast<Wide>(0) - static_cast<Wide>(val);
+                const Wide magnitude = positive_val ? static_cast<Wide>(val) : static_cast<Wide>(-(val + 1)) + 1u;
 
                 if (magnitude > static_cast<Wide>(max_mantissa() / denominator()))
                 {
-- 
2.43.0


From a9601c807714379a3d03038efe1e1b9103613764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 48/56] fix: reading a multiprecision integer of a wrong size
 accessed memory out of bounds or truncated it

---
 Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h b/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h
index 7885d16..06a5d36 100644
--- a/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h
+++ b/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h
@@ -32,6 +32,12 @@ namespace awl::io
 
         size &= ~detail::signMask;
 
+        //import_bits does not check the size of the range, and zero is written as a single byte.
+        if (size == 0 || size > awl::helpers::multiprecision_descriptor<Number>::size)
+        {
+            throw CorruptionException();
+        }
+
         //Floating point number may require variable size buffer, so we do not use boost::container::static_vector.
         boost::container::small_vector<std::uint8_t, awl::helpers::multiprecision_descriptor<Number>::size> v(size);
 
-- 
2.43.0


From 2a7db5d8048f58ad62e5d35f95df6a8bd90f4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 49/56] fix: OpenSslHash.h did not compile

---
 Awl/Crypto/OpenSslHash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Crypto/OpenSslHash.h b/Awl/Crypto/OpenSslHash.h
index 4d4aa47..194fe85 100644
--- a/Awl/Crypto/OpenSslHash.h
+++ b/Awl/Crypto/OpenSslHash.h
@@ -25,7 +25,7 @@ namespace awl
             template <class InputIt>
             typename std::enable_if<sizeof(typename std::iterator_traits<InputIt>::value_type) == 1, typename BasicHash<N>::value_type>::type operator()(InputIt begin, InputIt end) const
             {
-                BasicHash<N>::value_type digest;
+                typename BasicHash<N>::value_type digest;
 
                 func(&(*begin), end - begin, digest.data());
 
-- 
2.43.0


From b5d35f92e834c97523924007cfebba0ac8ead039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:40 +0000
Subject: [PATCH 50/56] fix: the mantissa of a decimal over an integer wider
 than 128 bits was cut

---
 Awl/DecimalConstants.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Awl/DecimalConstants.h b/Awl/DecimalConstants.h
index ae97eb2..d91ef8b 100644
--- a/Awl/DecimalConstants.h
+++ b/Awl/DecimalConstants.h
@@ -15,16 +15,15 @@ namespace awl
 {
     namespace helpers
     {
-        template <typename UInt, uint8_t exp_length, uint8_t type_size = sizeof(UInt)>
+        template <typename UInt, uint8_t exp_length, std::size_t type_size = std::numeric_limits<UInt>::digits / 8>
         struct DecimalConstants
         {
             static constexpr uint8_t sign_len = 1;
             //With UInt and exp_len == 4 the mantissa length is 59.
             static constexpr uint8_t exp_len = exp_length;
-            //TODO: uint8_t is not enough for boost::multiprecision
-            static constexpr uint8_t man_len = type_size * 8 - (exp_len + sign_len);
+            static constexpr std::size_t man_len = type_size * 8 - (exp_len + sign_len);
 
-            static constexpr UInt p2(uint8_t n)
+            static constexpr UInt p2(std::size_t n)
             {
                 return static_cast<UInt>(1) << n;
             }
@@ -32,17 +31,17 @@ namespace awl
             static constexpr UInt max_exp()
             {
                 //The denominators are stored in UInt, so there can't be more digits than fit into it.
-                const UInt digits = max_digits();
+                const UInt digits = static_cast<UInt>(max_digits());
 
                 return p2(exp_len) - 1 < digits ? p2(exp_len) - 1 : digits;
             }
 
             //The largest N such that 10^N fits into UInt.
-            static constexpr uint8_t max_digits()
+            static constexpr std::size_t max_digits()
             {
                 UInt val = static_cast<UInt>(~static_cast<UInt>(0));
 
-                uint8_t count = 0;
+                std::size_t count = 0;
 
                 while ((val /= 10) != 0)
                 {
-- 
2.43.0


From 4c5142a4f86c326996743f5e734805ce9f2868a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:40 +0000
Subject: [PATCH 51/56] fix: a structure index out of range in a garbled
 document was read out of bounds

---
 Awl/Io/Reader.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index ec82522..e79af3e 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -339,7 +339,13 @@ namespace awl::io
         typename Base::StructIndexType ReadStructIndex(InputStream & s) const
         {
             typename Base::StructIndexType index = Base::ReadStructIndex(s);
-            assert(index < oldPrototypes.size());
+
+            if (index >= oldPrototypes.size())
+            {
+                //There is no such structure in the metadata.
+                throw CorruptionException();
+            }
+
             return index;
         }
 
-- 
2.43.0


From 88f1f11cbeca5d8c1b43aab2de5560c1ebc3b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:40 +0000
Subject: [PATCH 52/56] fix: asynchronous generators of references did not
 compile

---
 Awl/Coro/AsyncGenerator.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Awl/Coro/AsyncGenerator.h b/Awl/Coro/AsyncGenerator.h
index 2617962..c8ee830 100644
--- a/Awl/Coro/AsyncGenerator.h
+++ b/Awl/Coro/AsyncGenerator.h
@@ -189,7 +189,7 @@ namespace awl
 
 			T& value() const noexcept
 			{
-				return *static_cast<T*>(m_currentValue);
+				return *static_cast<value_type*>(m_currentValue);
 			}
 
 		};
@@ -201,7 +201,7 @@ namespace awl
 
 			async_generator_promise() noexcept = default;
 
-			async_generator<T> get_return_object() noexcept;
+			async_generator<T&&> get_return_object() noexcept;
 
 			async_generator_yield_operation yield_value(T&& value) noexcept
 			{
@@ -247,7 +247,7 @@ namespace awl
 			// allow calculating difference between two iterators.
 			using difference_type = std::ptrdiff_t;
 			using value_type = std::remove_reference_t<T>;
-			using reference = std::add_lvalue_reference_t<T>;
+			using reference = std::conditional_t<std::is_reference_v<T>, T, T&>;
 			using pointer = std::add_pointer_t<value_type>;
 
 			async_generator_iterator(std::nullptr_t) noexcept
@@ -420,5 +420,11 @@ namespace awl
 		{
 			return async_generator<T>{ *this };
 		}
+
+		template<typename T>
+		async_generator<T&&> async_generator_promise<T&&>::get_return_object() noexcept
+		{
+			return async_generator<T&&>{ *this };
+		}
 	}
 }
-- 
2.43.0


From 4f16e07957220d9b90338ffe34be63439135c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:06 +0000
Subject: [PATCH 53/56] fix: a ring leaked or was corrupted when the copying or
 moving of an element failed

---
 Awl/Ring.h | 97 +++++++++++++++++++-----------------------------------
 1 file changed, 33 insertions(+), 64 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index 7126f23..407b7c5 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -188,7 +188,8 @@ namespace awl
             assert(cap != 0);
         }
 
-        ring(const ring & other)
+        //If the copying throws, the destructor is called, because the delegated constructor has completed.
+        ring(const ring & other) : ring(other.m_alloc)
         {
             copy(other);
         }
@@ -205,9 +206,11 @@ namespace awl
             //Not an assignment to itself.
             if (m_buf != other.m_buf)
             {
-                free();
+                ring temp(m_alloc);
+
+                temp.copy(other);
 
-                copy(other);
+                *this = std::move(temp);
             }
 
             return *this;
@@ -242,31 +245,16 @@ namespace awl
         {
             assert(cap != 0);
 
-            T * buf = m_alloc.allocate(cap);
-
-            size_type min_size;
-            
-            if (m_buf != nullptr)
-            {
-                min_size = std::min(cap, size());
+            ring temp(cap, m_alloc);
 
-                for (size_type i = 0; i != min_size; ++i)
-                {
-                    new (buf + i) T(std::move(operator[](size() - min_size + i)));
-                }
+            const size_type min_size = std::min(cap, size());
 
-                free();
-            }
-            else
+            for (size_type i = 0; i != min_size; ++i)
             {
-                min_size = 0;
+                temp.push_back(std::move_if_noexcept(operator[](size() - min_size + i)));
             }
 
-            m_buf = buf;
-            m_capacity = cap;
-
-            m_data = m_buf;
-            m_size = min_size;
+            *this = std::move(temp);
         }
 
         void clear()
@@ -297,7 +285,19 @@ namespace awl
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            if (full())
+            {
+                pop_back();
+            }
+
+            T * const p_write = prev(m_data);
+
+            //The constructor can throw.
+            new (p_write) T(std::move(val));
+
+            m_data = p_write;
+
+            ++m_size;
         }
 
         void push_back(const value_type & val)
@@ -307,7 +307,15 @@ namespace awl
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            if (full())
+            {
+                pop_front();
+            }
+
+            //The constructor can throw.
+            new (data_end()) T(std::move(val));
+
+            ++m_size;
         }
 
         void pop_front()
@@ -463,7 +471,6 @@ namespace awl
         }
 
         //The address where we write the next element.
-        //If the buffer is full it is equal to m_data.
         T * data_end() const
         {
             return address<T>(size());
@@ -497,44 +504,6 @@ namespace awl
             return p_prev;
         }
 
-        T * allocate_next()
-        {
-            T * const p_write = data_end();
-
-            if (full())
-            {
-                assert(m_data == p_write);
-
-                m_data->~T();
-
-                m_data = next(m_data);
-            }
-            else
-            {
-                ++m_size;
-            }
-
-            return p_write;
-        }
-
-        T * allocate_prev()
-        {
-            const bool saved_full = full();
-            
-            m_data = prev(m_data);
-
-            if (saved_full)
-            {
-                m_data->~T();
-            }
-            else
-            {
-                ++m_size;
-            }
-
-            return m_data;
-        }
-
         void free()
         {
             if (m_buf != nullptr)
-- 
2.43.0


From cbccd3fc8628f277dbe3d4f4886931d7ddff4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 54/56] fix: a moved ring returned its memory to a foreign
 allocator

---
 Awl/Ring.h | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index 407b7c5..0fcec9f 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -9,6 +9,8 @@
 #include <cassert>
 #include <initializer_list>
 #include <iterator>
+#include <memory>
+#include <utility>
 #include <algorithm>
 #include <ranges>
 
@@ -30,6 +32,8 @@ namespace awl
 
     private:
 
+        using alloc_traits = std::allocator_traits<Allocator>;
+
         template <class E>
         class ring_iterator
         {
@@ -189,12 +193,12 @@ namespace awl
         }
 
         //If the copying throws, the destructor is called, because the delegated constructor has completed.
-        ring(const ring & other) : ring(other.m_alloc)
+        ring(const ring & other) : ring(alloc_traits::select_on_container_copy_construction(other.m_alloc))
         {
             copy(other);
         }
 
-        ring(ring && other) noexcept
+        ring(ring && other) noexcept : m_alloc(other.m_alloc)
         {
             attach(other);
 
@@ -216,13 +220,36 @@ namespace awl
             return *this;
         }
 
-        ring & operator = (ring && other) noexcept
+        ring & operator = (ring && other)
+            noexcept(alloc_traits::propagate_on_container_move_assignment::value || alloc_traits::is_always_equal::value)
         {
             //Not an assignment to itself.
-            if (m_buf != other.m_buf)
+            if (this != &other)
             {
+                if constexpr (!alloc_traits::propagate_on_container_move_assignment::value && !alloc_traits::is_always_equal::value)
+                {
+                    if (!(m_alloc == other.m_alloc))
+                    {
+                        //The buffer can't be taken along, because it belongs to another allocator.
+                        ring temp(m_alloc);
+
+                        temp.copy(other, [](T & val) -> T && { return std::move(val); });
+
+                        other.free();
+
+                        other.release();
+
+                        return *this = std::move(temp);
+                    }
+                }
+
                 free();
 
+                if constexpr (alloc_traits::propagate_on_container_move_assignment::value)
+                {
+                    m_alloc = std::move(other.m_alloc);
+                }
+
                 attach(other);
 
                 other.release();
@@ -535,6 +562,12 @@ namespace awl
         }
 
         void copy(const ring & other)
+        {
+            copy(other, [](const T & val) -> const T & { return val; });
+        }
+
+        template <class Func>
+        void copy(const ring & other, Func func)
         {
             if (other.m_buf == nullptr)
             {
@@ -543,15 +576,15 @@ namespace awl
                 return;
             }
 
+            m_buf = m_alloc.allocate(other.m_capacity);
             m_capacity = other.m_capacity;
-            m_buf = m_alloc.allocate(m_capacity);
 
             m_data = m_buf;
             m_size = 0;
 
-            for (const T & val : other)
+            for (size_type i = 0; i != other.size(); ++i)
             {
-                push_back(val);
+                push_back(func(*other.template address<T>(i)));
             }
         }
 
-- 
2.43.0


From a96a9d389b9c489597395dd2594fc78d9ff229f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:37 +0000
Subject: [PATCH 55/56] fix: copying a vector_set leaked, and assigning one
 lost its elements, when the copying of an element failed

---
 Awl/VectorSet.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 2a1d24c..a7931bf 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -224,7 +224,8 @@ namespace awl
         {
         }
 
-        vector_set(const vector_set & other) : m_comp(other.m_comp), m_alloc(other.m_alloc), m_nodeAlloc(other.m_nodeAlloc)
+        //If the copying throws, the destructor is called, because the delegated constructor has completed.
+        vector_set(const vector_set & other) : vector_set(other.m_comp, other.m_alloc)
         {
             CopyElements(other);
         }
@@ -235,7 +236,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc), m_nodeAlloc(m_alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : vector_set(comp, alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
@@ -275,10 +276,15 @@ namespace awl
         {
             if (this != &other)
             {
-                clear();
                 //Should we copy the allocator?
-                m_comp = other.m_comp;
-                CopyElements(other);
+                vector_set temp(other.m_comp, m_alloc);
+                temp.CopyElements(other);
+
+                clear();
+                m_comp = std::move(temp.m_comp);
+                m_root = std::move(temp.m_root);
+                m_list = std::move(temp.m_list);
+                temp.m_root = nullptr;
             }
 
             return *this;
-- 
2.43.0


From b70890b87cfaed21fba289c7ed1c659d95dd3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 56/56] fix: a hash stream delivered damaged data, or read from
 nowhere, when it was read on after an exception

---
 Awl/Io/HashStream.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 60720a0..9f81a69 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -7,6 +7,7 @@
 
 #include "Awl/Io/IoException.h"
 #include "Awl/Io/SequentialStream.h"
+#include "Awl/ScopeGuard.h"
 
 #include <vector>
 #include <algorithm>
@@ -53,6 +54,9 @@ namespace awl
             {
                 if (m_i == m_block.end())
                 {
+                    //If an exception is thrown, nothing is read from the block that was not accepted.
+                    auto guard = awl::make_scope_guard([this]() { m_block.clear(); m_i = m_block.end(); });
+
                     m_block.resize(blockSize);
 
                     const size_t actually_read = m_in.Read(m_block.data(), blockSize);
@@ -92,6 +96,8 @@ namespace awl
                         m_block.resize(actually_read - Hash::size());
                     }
 
+                    guard.release();
+
                     m_i = m_block.begin();
                 }
             }
-- 
2.43.0

