From 88bdc93eb1e49adf583d661f9419d577b5b887fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:25 +0000
Subject: [PATCH 01/62] fix: fixed_vector::insert corrupts elements it shifts
 over themselves

---
 ristra/utils/fixed_vector.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7e3af50..516bfdf 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -179,9 +179,8 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
-    // shift data to the right
-    auto d_last = std::next(d_first);
-    std::copy(d_first, end(), d_last );
+    // shift data to the right, last element first since the ranges overlap
+    std::copy_backward( d_first, end(), std::next(end()) );
     // assign value
     *d_first = value;
     // increment counter
@@ -195,9 +194,8 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
-    // shift data to the right
-    auto d_last = std::next(d_first);
-    std::move(d_first, end(), d_last );
+    // shift data to the right, last element first since the ranges overlap
+    std::move_backward( d_first, end(), std::next(end()) );
     // assign value
     *d_first = std::move( value );
     // increment counter
@@ -214,8 +212,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::copy(d_first, end(), d_last );
+    std::copy_backward( d_first, end(), std::next(end(), count) );
     // assign value
     std::fill_n( d_first, count, value );
     // increment counter
@@ -238,8 +235,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::move(d_first, end(), d_last );
+    std::move_backward( d_first, end(), std::next(end(), count) );
     // assign values
     std::copy( first, last, d_first );
     // increment counter
@@ -258,8 +254,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return start;
     // otherwise, shift data to the right
-    auto next = std::next(start, count);
-    std::move(start, end(), next );
+    std::move_backward( start, end(), std::next(end(), count) );
     // assign values
     std::copy( ilist.begin(), ilist.end(), start );
     // increment counter
-- 
2.43.0


From a25137b15a57f804cdf9d7271b9ddfa3f4b2ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:25 +0000
Subject: [PATCH 02/62] fix: fixed_vector equality ignores the lengths of its
 operands

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 516bfdf..1fcede5 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -378,7 +378,7 @@ template< class T, std::size_t N >
 bool operator==( const fixed_vector<T,N>& lhs,
                  const fixed_vector<T,N>& rhs )
 {
-  return std::equal( lhs.begin(), lhs.end(), rhs.begin() );
+  return std::equal( lhs.begin(), lhs.end(), rhs.begin(), rhs.end() );
 }
     
 } // namespace utils
-- 
2.43.0


From 8892d36527d735eaa08220e50dfe546ddc02103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:25 +0000
Subject: [PATCH 03/62] fix: fixed_vector::erase of an empty range returns
 begin() instead of the position

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 1fcede5..352cf71 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -287,7 +287,7 @@ public:
     // if empty, nothing to do    
     if ( empty() ) return end();
     // if first == last, nothring to do
-    if ( first == last ) return begin();
+    if ( first == last ) return _validate_iterator( last );
     // get the number of deleted elements
     auto count = std::distance( first, last );
     // convert to a non-const iterator
-- 
2.43.0


From d074a463e2c4d8cdfcbba60b7fa66aaf6821a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:25 +0000
Subject: [PATCH 04/62] fix: fixed_vector::data and reverse iteration do not
 compile when used

---
 ristra/utils/fixed_vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 352cf71..7292187 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -134,8 +134,8 @@ public:
   constexpr reference front() { return data_[0]; }
   constexpr reference back()  { return data_[size()-1]; }
         
-  constexpr const_pointer data() const { return data_; }
-  constexpr pointer data() { return data_; }
+  constexpr const_pointer data() const { return data_.data(); }
+  constexpr pointer data() { return data_.data(); }
         
 
   //============================================================================
@@ -148,10 +148,10 @@ public:
   constexpr const_iterator end() const { return std::next(data_.begin(), length_); }
   constexpr const_iterator cbegin() const { return begin(); }
   constexpr const_iterator cend() const { return end(); }
-  reverse_iterator rbegin() const {
+  const_reverse_iterator rbegin() const {
     return const_reverse_iterator(end());
   }
-  reverse_iterator rend() const {
+  const_reverse_iterator rend() const {
     return const_reverse_iterator(begin());
   }
   const_reverse_iterator crbegin() const { return rbegin(); }
-- 
2.43.0


From 116d79c31dc758b9d92ce0d9893184a9873907c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:19 +0000
Subject: [PATCH 05/62] fix: replace_all never returns when asked to replace
 the empty string

---
 ristra/utils/string_utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9ea2e6f..1b1f247 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -33,6 +33,8 @@ namespace utils {
 ////////////////////////////////////////////////////////////////////////////////
 inline
 auto replace_all(std::string str, const std::string & from, const std::string & to) {
+  // there are no occurrences of an empty string to replace
+  if (from.empty()) return str;
   size_t start_pos = 0;
   while((start_pos = str.find(from, start_pos)) != std::string::npos) {
     str.replace(start_pos, from.length(), to);
-- 
2.43.0


From 9062257472a9cdf2cdd548724ccebeb0beaa48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:19 +0000
Subject: [PATCH 06/62] fix: split writes outside its table for delimiters with
 the high bit set

---
 ristra/utils/string_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 1b1f247..de45685 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -168,7 +168,7 @@ std::vector<std::string> split(
       static ccmask rc[cctype::table_size];
       std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
       for (const auto & d : delims) 
-        rc[d] = ctype_base::space;
+        rc[static_cast<unsigned char>(d)] = ctype_base::space;
       return &rc[0];
     }
   };
-- 
2.43.0


From 9af3fc5597076e1764b431fcff403de42cd9c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:19 +0000
Subject: [PATCH 07/62] fix: concurrent calls of split overwrite each other's
 delimiters

---
 ristra/utils/string_utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index de45685..99af1cd 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -159,17 +159,18 @@ std::vector<std::string> split(
     using ccmask = cctype::mask;
     
     tokens_t(const std::vector<char> & delims) 
-      : cctype(get_table(delims)) {}
+      : cctype(get_table(delims), true) {}
 
     static ctype_base::mask const * get_table(
       const std::vector<char> & delims
     ) {
       static const ccmask * const_rc = cctype::classic_table();
-      static ccmask rc[cctype::table_size];
+      // owned, and deleted, by this facet
+      auto rc = new ccmask[cctype::table_size];
       std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
       for (const auto & d : delims) 
         rc[static_cast<unsigned char>(d)] = ctype_base::space;
-      return &rc[0];
+      return rc;
     }
   };
 
-- 
2.43.0


From dbb3763f965d158d197459439cef49a89963b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 08/62] fix: remove_extension and split_extension cut paths at
 a dot in a directory name

---
 ristra/utils/string_utils.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 99af1cd..ae1db29 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -117,8 +117,9 @@ std::string file_extension(const std::string & str)
 ////////////////////////////////////////////////////////////////////////////////
 inline
 std::string remove_extension(const std::string & str) {
-    auto lastdot = str.find_last_of(".");
-    if (lastdot == std::string::npos) return str;
+    // a dot in the directory part does not start an extension
+    auto lastdot = str.find_last_of("./");
+    if (lastdot == std::string::npos || str[lastdot] != '.') return str;
     return str.substr(0, lastdot); 
 }
 
@@ -130,8 +131,9 @@ std::string remove_extension(const std::string & str) {
 inline
 std::pair<std::string, std::string>
 split_extension(const std::string & str) {
-  auto lastdot = str.find_last_of(".");
-  if (lastdot == std::string::npos)
+  // a dot in the directory part does not start an extension
+  auto lastdot = str.find_last_of("./");
+  if (lastdot == std::string::npos || str[lastdot] != '.')
     return std::make_pair( str, "");
   else
     return std::make_pair( str.substr(0, lastdot), str.substr(lastdot+1) ); 
-- 
2.43.0


From d4834656b171700c787080274eeae86e3c689099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 09/62] fix: to_trivial_string writes past its storage for
 strings that do not fit

---
 ristra/utils/trivial_string.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/trivial_string.h b/ristra/utils/trivial_string.h
index 76353b4..59e380f 100644
--- a/ristra/utils/trivial_string.h
+++ b/ristra/utils/trivial_string.h
@@ -78,7 +78,9 @@ template< std::size_t N >
 auto to_trivial_string( const std::string & str )
 {
   trivial_string<N> tmp;
-  strcpy( tmp.data(), str.c_str() );
+  // keep what fits, always terminated
+  strncpy( tmp.data(), str.c_str(), N-1 );
+  tmp[N-1] = '\0';
   return tmp;
 }
 
-- 
2.43.0


From 6503d558d218c19756a60a2878a29cf03c1948b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:45 +0000
Subject: [PATCH 10/62] fix: zip does not check the size of its first container
 and misreads a single one

---
 ristra/utils/zip.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/zip.h b/ristra/utils/zip.h
index 0731ff3..9840ab5 100644
--- a/ristra/utils/zip.h
+++ b/ristra/utils/zip.h
@@ -131,8 +131,8 @@ decltype(auto) zip(Types&&... args)
 
   // check all the sizes
   size_t sizes[] = { args.size()... };
-  auto first_size = sizes[1];
-  for ( int i=2; i<n; i++ )
+  auto first_size = sizes[0];
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 
   return zipper<special_decay_t<Types>...>(std::forward<Types>(args)...);
-- 
2.43.0


From f6dc309228d086b14e6a81235dbd53c4994e16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:44 +0000
Subject: [PATCH 11/62] fix: dividing an integral array by an integer yields
 zeros

---
 ristra/math/array.h       | 7 +++----
 ristra/math/multi_array.h | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 55277ef..0b3e97c 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -422,9 +422,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
+    const auto den = val; // val may refer to one of the elements
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= inv;
+      elems_[i] /= den;
     return *this;
   }
 
@@ -687,11 +687,10 @@ operator/( const array<T,N>& lhs,
            const U& rhs )
 {
   array<T,N> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename array<T,N>::counter_type;
   constexpr auto len = static_cast<counter_type>(N);
   for ( counter_type i=0; i<len; i++ )
-    tmp[i] = lhs[i] * inv;
+    tmp[i] = lhs[i] / rhs;
   return tmp;
 }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index b75828d..f41110c 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -532,8 +532,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= inv;
+    const auto den = val; // val may refer to one of the elements
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= den;
     return *this;
   }
 
@@ -875,10 +875,9 @@ operator/( const multi_array<T,N...>& lhs,
            const U& rhs )
 {
   multi_array<T,N...> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename multi_array<T,N...>::counter_type;
   for ( counter_type i=0; i<multi_array<T,N...>::elements; i++ ) 
-    tmp[i] = lhs[i] * inv;    
+    tmp[i] = lhs[i] / rhs;    
   return tmp;
 }
 
-- 
2.43.0


From a5a0020c478488fc6558c7edd47fc3d58ab7b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:44 +0000
Subject: [PATCH 12/62] fix: array operations between different element types
 do not compile

---
 ristra/math/array.h       | 12 ++++++------
 ristra/math/multi_array.h | 11 +++++------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 0b3e97c..fa4c8e3 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -99,7 +99,7 @@ public:
   constexpr array(const array<T2,N> &rhs) noexcept
   {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i]; 
+      elems_[i] = rhs[i]; 
   }
 
   //! \brief Constructor with variadic arguments.
@@ -332,7 +332,7 @@ public:
   template <typename T2>
   auto & operator= (const array<T2,N>& rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i];    
+      elems_[i] = rhs[i];    
     return *this;
   }
 
@@ -352,7 +352,7 @@ public:
   template <typename T2>
   auto & operator+=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] += rhs.elems_[i];    
+      elems_[i] += rhs[i];    
     return *this;
   }
 
@@ -372,7 +372,7 @@ public:
   template <typename T2>
   auto & operator-=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] -= rhs.elems_[i];    
+      elems_[i] -= rhs[i];    
     return *this;
   }
 
@@ -393,7 +393,7 @@ public:
   template <typename T2> 
   auto & operator*=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= rhs.elems_[i];    
+      elems_[i] *= rhs[i];    
     return *this;
   }
 
@@ -413,7 +413,7 @@ public:
   template <typename T2>
   auto & operator/=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] /= rhs.elems_[i];    
+      elems_[i] /= rhs[i];    
     return *this;
   }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index f41110c..482ab11 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -449,8 +449,7 @@ public:
   //!\brief  assignment with type conversion
   template <typename T2>
   auto & operator= (const multi_array<T2,N...>& rhs) {
-    if ( this != &rhs )
-      for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs[i];    
     return *this;
   }
 
@@ -468,7 +467,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs[i];    
     return *this;
   }
 
@@ -486,7 +485,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs[i];    
     return *this;
   }
 
@@ -505,7 +504,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2> 
   auto & operator*=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs[i];    
     return *this;
   }
 
@@ -523,7 +522,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs[i];    
     return *this;
   }
 
-- 
2.43.0


From fe276808678b3b5fd31ca453df1be73296866e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:44 +0000
Subject: [PATCH 13/62] fix: the average of negative integers is a huge number

---
 ristra/math/general.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index bf50433..ad56369 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -42,7 +42,8 @@ average( T && t, Types&&... args )
 { 
   auto res( t ); // first one
   detail::average(res, std::forward<Types>(args)...); // sum the rest
-  res /=  ( sizeof...(args) + 1 ); // divide by number
+  // divide by number, which is signed since the values may be
+  res /= static_cast<std::ptrdiff_t>( sizeof...(args) + 1 );
   return res;
 }
 
@@ -83,7 +84,8 @@ auto average( const V<T, Args...> & vals )
   assert( vals.size() > 0 && "not enough values" );
   T avg(0);
   for ( const auto & x : vals ) avg += x;
-  avg /= vals.size();
+  // the number is signed since the values may be
+  avg /= static_cast<std::ptrdiff_t>( vals.size() );
   return avg;
 }
 
-- 
2.43.0


From 38a031b066ad42d0f86dce17319553fa5baaed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:44 +0000
Subject: [PATCH 14/62] fix: elementwise min and max of std::vectors write into
 an empty vector

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index ad56369..b2e6bba 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -288,7 +288,7 @@ auto min(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto min(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp( a ); // this is also sized like a
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::min( a[i], b[i] );
   return tmp;
@@ -317,7 +317,7 @@ auto max(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto max(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp( a ); // this is also sized like a
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::max( a[i], b[i] );
   return tmp;
-- 
2.43.0


From b19ddaf45140ef0761dc1a3a6ae66c3665056c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:16 +0000
Subject: [PATCH 15/62] fix: matrix_vector scales y by beta once per matrix
 column

---
 ristra/math/matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index 3c7739b..f3306e8 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -304,8 +304,10 @@ void matrix_vector(
   C<T,D1> & y )
 {
   for ( utils::select_counter_t<D1> i = 0; i<D1; i++ ) {
+    T sum = 0;
     for ( utils::select_counter_t<D2>  j = 0; j<D2; j++ )
-      y[i] = alpha * A(i,j) * x[j] + beta * y[i];
+      sum += A(i,j) * x[j];
+    y[i] = alpha * sum + beta * y[i];
   }
 }
 //! @}
-- 
2.43.0


From c2feebd93a23dac84da93d143e4f823449df93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:26 +0000
Subject: [PATCH 16/62] fix: compound assignment of a point or space vector
 with itself does nothing

---
 ristra/utils/dimensioned_array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index c21656c..8e1d36a 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -204,11 +204,9 @@ public:
       dimensioned_array__ const & rhs                                          \
     )                                                                          \
     {                                                                          \
-      if(this != &rhs) {                                                       \
-        for(size_t i{0}; i<DIMENSION; i++) {                                   \
-          data_[i] op rhs[i];                                                  \
-        } /* for */                                                            \
-      } /* if */                                                               \
+      for(size_t i{0}; i<DIMENSION; i++) {                                     \
+        data_[i] op rhs[i];                                                    \
+      } /* for */                                                              \
                                                                                \
       return *this;                                                            \
     }
-- 
2.43.0


From 26abc5c92fee7c9e15379549fe984030a53161a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:08 +0000
Subject: [PATCH 17/62] fix: hexahedron::volume is too large when its
 determinants differ in sign

---
 ristra/geometry/shapes/hexahedron.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/geometry/shapes/hexahedron.h b/ristra/geometry/shapes/hexahedron.h
index 79d4e46..59da907 100644
--- a/ristra/geometry/shapes/hexahedron.h
+++ b/ristra/geometry/shapes/hexahedron.h
@@ -165,10 +165,10 @@ public:
     T d63_d50{ d63[0]+d50[0], d63[1]+d50[1], d63[2]+d50[2] };
     T d64_d20{ d64[0]+d20[0], d64[1]+d20[1], d64[2]+d20[2] };
     auto det = 
-      std::abs( triple_product( d61_d70, d63, d20 ) ) +
-      std::abs( triple_product( d70, d63_d50, d64 ) ) +
-      std::abs( triple_product( d61, d50, d64_d20 ) );
-    return det / 12;
+      triple_product( d61_d70, d63, d20 ) +
+      triple_product( d70, d63_d50, d64 ) +
+      triple_product( d61, d50, d64_d20 );
+    return std::abs( det ) / 12;
   }
      
 };
-- 
2.43.0


From 32f9a34325cf87af4e975f527cc7d1bd51635883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 18/62] fix: array views report empty() when they have elements
 and the reverse

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index d56c5b3..684b1ce 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2218,7 +2218,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -2728,7 +2728,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -3236,7 +3236,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
-- 
2.43.0


From ee18244a50e0dafb71bf675e049a4d27f0ceac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 19/62] fix: out-of-range access through array_view::at ends
 the program instead of throwing

---
 ristra/utils/array_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 684b1ce..c5f4450 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2271,7 +2271,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the strided_array_view.    
@@ -2780,7 +2780,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3289,7 +3289,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3329,7 +3329,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] slice the index
   //! \return a reference to the indexed location
-  constexpr auto slice( size_type idx ) const noexcept
+  constexpr auto slice( size_type idx ) const
   { 
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
-- 
2.43.0


From a539147b7eea3d37029b32ff7e4c10cac957c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 20/62] fix: contiguous_bounds of a C array uses the extents as
 strides

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index c5f4450..7f73667 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1040,7 +1040,7 @@ protected:
   constexpr contiguous_bounds( 
     ArrayType &, std::index_sequence<I...> ) noexcept : 
     bounds_( std::extent<ArrayType, I>::value... ),
-    strides_( std::extent<ArrayType, I>::value... )
+    strides_( detail::make_strides<index_type>{}( std::extent<ArrayType, I>::value... ) )
   { };  
 
   /// @}
-- 
2.43.0


From 579cd1cffeac5b2f684865893b45c2cd4830ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 21/62] fix: strided views of the same data compare equal
 whatever their strides

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 7f73667..b4bcfb1 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2421,7 +2421,7 @@ public:
   constexpr bool operator==(const strided_array_view<OtherValueType, OtherRank>& other) const noexcept
   {
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
-- 
2.43.0


From cacb572dada3e206fa80bab4398b40c0bd299e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:50 +0000
Subject: [PATCH 22/62] fix: random access through bounds iterators does not
 compile, reach the end or order

---
 ristra/utils/array_view.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index b4bcfb1..f7d2a09 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1433,7 +1433,7 @@ public:
   constexpr bounds_iterator& operator+=(difference_type n) noexcept
   {
     auto linear_idx = linearize(current_) + n;
-    std::remove_const_t<value_type> stride = 0;
+    std::remove_const_t<value_type> stride{};
     stride[rank - 1] = 1;
     for (int i = rank - 1; i-- > 0;) {
       stride[i] = stride[i + 1] * bounds_[i + 1];
@@ -1442,6 +1442,8 @@ public:
       current_[i] = linear_idx / stride[i];
       linear_idx = linear_idx % stride[i];
     }
+    // one past the last element is represented by the bounds themselves
+    if ( current_[0] == bounds_[0] ) current_ = bounds_;
     // index is out of bounds of the array
     assert( (current_ >= index_type{}) && (bounds_ >= current_) );
     return *this;
@@ -1492,7 +1494,7 @@ public:
   //! \brief test less-than
   //! \param [in] rhs the object on the right hand side of the operator
   constexpr bool operator<(const bounds_iterator& rhs) const noexcept
-  { return (current_ < rhs.current_); }
+  { return (*this - rhs) < 0; }
 
   //! \brief test <=
   //! \param [in] rhs the object on the right hand side of the operator
@@ -1558,7 +1560,7 @@ private:
   /// @{
 
   //! \brief storage for the bounds
-  value_type bounds_;
+  std::remove_const_t<value_type> bounds_;
   //! \brief storage for the current index
   std::remove_const_t<value_type> current_;
 
-- 
2.43.0


From e65b7016514bfa5a988cc8979f1cb17a03cfd284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:29 +0000
Subject: [PATCH 23/62] fix: iterating over multi-dimensional bounds with a
 zero extent visits elements

---
 ristra/utils/array_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index f7d2a09..a3b2a86 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -738,7 +738,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -995,7 +995,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
-- 
2.43.0


From dc6ca2d388a5d3343d53aa7cd7de907745f94259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:32 +0000
Subject: [PATCH 24/62] fix: static_array_view slices, sections, conversions
 and const iteration are unusable

---
 ristra/utils/array_view.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index a3b2a86..518c89b 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3106,7 +3106,7 @@ public:
   using reference = std::add_lvalue_reference_t<value_type>;
 
   //! \brief a constant version of the same view
-  using const_static_array_view = static_array_view<const_value_type, Rank>;
+  using const_static_array_view = static_array_view<const_value_type, FirstDim, RestDims...>;
 
   //! \brief a strided version of the same view
   using strided_view = strided_array_view<value_type, Rank>;
@@ -3121,7 +3121,7 @@ public:
 
 
   //! a sliced type
-  using sliced_type = slice_chooser< (Rank == 1),  value_type, RestDims... >;
+  using sliced_type = typename slice_chooser< (Rank == 1),  value_type, RestDims... >::type;
 
   /// @}
         
@@ -3178,6 +3178,7 @@ public:
   operator=(const static_array_view<ViewValueType, FirstDim, RestDims...>& rhs) noexcept
   {
     data_ = rhs.data();
+    return *this;
   }
 
   //! \brief single parameter container
@@ -3245,10 +3246,10 @@ public:
   { return bounds_; }
 
   //! \brief return the stride of the array
-  constexpr const auto & strides() const noexcept
+  constexpr auto strides() const noexcept
   { return bounds_.strides(); }
  
-  constexpr const auto & stride() const noexcept
+  constexpr auto stride() const noexcept
   { return bounds_.stride(); }
 
 
@@ -3324,7 +3325,7 @@ public:
   constexpr Ret operator[]( size_type idx ) const noexcept
   { 
     const auto ridx = idx * bounds_.stride();
-    return { bounds_.slice(), data_+ridx };
+    return { data_+ridx };
   }
 
   //! \brief slice an array, i.e. fix the most significant dimension
@@ -3353,7 +3354,7 @@ public:
   { 
     assert( bounds().contains(origin) );
     auto bnds = bounds_.as_index() - origin;
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   constexpr strided_view section( 
@@ -3362,21 +3363,21 @@ public:
   { 
     assert( bounds_.contains(origin) );
     assert( origin + bnds <= bounds_.as_index() );    
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator strided_view() const 
   {
-    return strided_view( bounds_.as_index(), bounds_.strides(), data() );
+    return strided_view( data(), bounds_.as_index(), bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator dynamic_view() const 
   {
-    return dynamic_view( bounds_.as_index(), data() );
+    return dynamic_view( data(), typename dynamic_view::bounds_type( bounds_.as_index() ) );
   }
   
   /// @}
-- 
2.43.0


From 6b5169a51f1b5376b88e007ab48be056f813bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 25/62] fix: the jacobian of a 2D element reads a third row and
 column that it does not have

---
 ristra/elements/elements.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1b18817..3c2c86d 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -553,12 +553,18 @@ void jacobian(
     
 
    //calcualate the determinant of the jacobian for 2D/3D matrices
-   det_J =  J_matrix[0][0] *(J_matrix[1][1] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][1] * J_matrix[1][2])*abs(dim-2))  //group 1
-         -  J_matrix[0][1] *(J_matrix[1][0] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][0] * J_matrix[1][2])*abs(dim-2))  // group 2
-         +  J_matrix[0][2] *(J_matrix[1][0] *  J_matrix[2][1] 
-         -  J_matrix[2][0] * J_matrix[1][1])*(abs(dim-2)); // group 3 
+   if (dim == 2){
+      det_J =  J_matrix[0][0] * J_matrix[1][1]
+            -  J_matrix[0][1] * J_matrix[1][0];
+   }
+   else {
+      det_J =  J_matrix[0][0] *(J_matrix[1][1] * J_matrix[2][2]
+            -  J_matrix[2][1] * J_matrix[1][2])  //group 1
+            -  J_matrix[0][1] *(J_matrix[1][0] * J_matrix[2][2]
+            -  J_matrix[2][0] * J_matrix[1][2])  // group 2
+            +  J_matrix[0][2] *(J_matrix[1][0] * J_matrix[2][1]
+            -  J_matrix[2][0] * J_matrix[1][1]); // group 3
+   }
    } // end of jacobian function
 
 //defining the jacobian for 4D elements
-- 
2.43.0


From a293c96789478e1c6753350380ab5a4e9e3b0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 26/62] fix: the inverse of a 3D jacobian is wrong unless the
 jacobian is diagonal

---
 ristra/elements/elements.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 3c2c86d..ee1b16a 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -665,16 +665,16 @@ void jacobian_inverse_3d(
    real_t A_32 = jacobian[0][2]*jacobian[1][0] 
                  - jacobian[1][2]*jacobian[0][0];
 
-   real_t A_13 = jacobian[1][0]*jacobian[1][1] 
+   real_t A_13 = jacobian[1][0]*jacobian[2][1] 
                  - jacobian[2][0]*jacobian[1][1];
  
-   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_21 
-                + jacobian[0][2]*A_31;
+   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_12 
+                + jacobian[0][2]*A_13;
 
    J_inverse_matrix = {
-                      {A_11/det, A_12/det, A_13/det},
-                      {A_21/det, A_22/det, A_23/det},
-                      {A_31/det, A_32/det, A_33/det},
+                      {A_11/det, A_21/det, A_31/det},
+                      {A_12/det, A_22/det, A_32/det},
+                      {A_13/det, A_23/det, A_33/det},
                       };
 
     } // end of inverse jacobian 
-- 
2.43.0


From df20963e13840ee9677413c71c3f6127f7609f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 27/62] fix: one cofactor of the inverse of a 4D jacobian takes
 a wrong entry

---
 ristra/elements/elements.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index ee1b16a..31b4001 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -780,7 +780,7 @@ void jacobian_inverse_4d(
            - m[4]  * m[1] * m[15] 
            + m[4]  * m[3] * m[13] 
            + m[12] * m[1] * m[7] 
-           - m[12] * m[3] * m[6];
+           - m[12] * m[3] * m[5];
 
    inv[14] =-m[0]  * m[5] * m[14] 
            + m[0]  * m[6] * m[13] 
-- 
2.43.0


From 1548f091f23983802e41dcad02206a344fc4da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 28/62] fix: the 12-node quadrilateral returns the basis of the
 8-node one

---
 ristra/elements/elements.cc | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 31b4001..e680f77 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -1257,26 +1257,27 @@ void Quad_12_2D::basis(
 
    // calculate the shape functions for node 0,1,2,3(xi,eta)
    for( int this_vert = 0; this_vert < 4; this_vert++ ){
-      basis[this_vert] = 1.0/4.0
-         * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
-         * (xi_2D_point[0]*ref_vert[this_vert][0] 
-         +  xi_2D_point[1]*ref_vert[this_vert][1] -1);
+      basis[this_vert] = 1.0/32.0
+         * (1 + ref_vert[this_vert][0] * xi_2D_point[0])
+         * (1 + ref_vert[this_vert][1] * xi_2D_point[1])
+         * (9.0 * (xi_2D_point[0] * xi_2D_point[0] + xi_2D_point[1] * xi_2D_point[1])
+         - (10.0));
    } // end for this_vert
 
-
-   // calculate the shape functions for node 4,6(xi,eta)
-   for( int this_vert = 4; this_vert <= 6; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
-         * (1.0 - xi_2D_point[0]*xi_2D_point[0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1]);
+   // calculate the shape functions for node 4-7(xi,eta)
+   for( int this_vert = 4; this_vert <= 7; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
+         * (1 - xi_2D_point[0] * xi_2D_point[0])
+         * (1 + xi_2D_point[1] * ref_vert[this_vert][1])
+         * (1 + 9.0 * xi_2D_point[0] * ref_vert[this_vert][0]);
    } // end for this_vert
 
-   // calculate the shape functions for node 5,7 (xi,eta)
-   for( int this_vert = 5; this_vert <= 7; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
-         * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 - xi_2D_point[1]*xi_2D_point[1]);
+   // calculate the shape functions for node 8-11 (xi,eta)
+   for( int this_vert = 8; this_vert <= 11; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
+         * (1 + xi_2D_point[0] * ref_vert[this_vert][0])
+         * (1 - xi_2D_point[1] * xi_2D_point[1])
+         * (1 + 9.0 * xi_2D_point[1] * ref_vert[this_vert][1]);
    } // end for this_vert
 }// end of quad12 basis functions
 
-- 
2.43.0


From db8a721a88a67b3ba6022efb989a237977badc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 29/62] fix: arbitrary-order elements leave out the last
 coordinate of a physical position

---
 ristra/elements/elements.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index e680f77..f7f802b 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2289,8 +2289,11 @@ void QuadN::physical_position (
    int nodes = orderN + 1;
    int numnodes_2d = nodes * nodes;
 
+   for (int dim = 0; dim < 2; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_2d; this_vert++ ){
-      for (int dim = 0; dim < 1; dim++){
+      for (int dim = 0; dim < 2; dim++){
          x_point[dim] += lag_nodes_2d[this_vert][dim]*lag_basis_2d[this_vert];
       } // end for dim
    } // end for this_vert
@@ -2571,8 +2574,11 @@ void HexN::physical_position (
    int nodes = orderN + 1;
    int numnodes_3d = nodes * nodes * nodes;
 
+   for (int dim = 0; dim < 3; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_3d; this_vert++ ){
-      for (int dim = 0; dim < 2; dim++){
+      for (int dim = 0; dim < 3; dim++){
          x_point[dim] += lag_nodes[this_vert][dim]*lag_basis_3d[this_vert];
       } // end for dim
    } // end for this_vert
-- 
2.43.0


From d7afcbac91eb3949a3fde69791411d638564efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 30/62] fix: the tesseract element reads uninitialised
 reference vertices

---
 ristra/elements/elements.cc | 2 +-
 ristra/elements/elements.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index f7f802b..968b5ae 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2764,7 +2764,7 @@ void HexN::basis_partials (
 
 int  num_nodes = 16;
 
-real_t ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
+real_t Tess16::ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
    {
    // Interior cube bottom
    {-1.0, -1.0, -1.0, -1.0},//0
diff --git a/ristra/elements/elements.h b/ristra/elements/elements.h
index 85739d0..c5f6523 100644
--- a/ristra/elements/elements.h
+++ b/ristra/elements/elements.h
@@ -744,7 +744,7 @@ class Tess16: public Element4D {
    protected:
       int  num_nodes;
 
-      real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
+      static real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
 
 
 
-- 
2.43.0


From fb233481166bfb589a5b2534717436bee861ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:03 +0000
Subject: [PATCH 31/62] fix: atomic operations with the cpp scheme return a
 value other threads may have changed

---
 ristra/atomics/src/atomics-macro-class.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ristra/atomics/src/atomics-macro-class.h b/ristra/atomics/src/atomics-macro-class.h
index 1a7394f..a43934f 100644
--- a/ristra/atomics/src/atomics-macro-class.h
+++ b/ristra/atomics/src/atomics-macro-class.h
@@ -33,9 +33,11 @@ public:
       // std::atomic<>'s fetch_add() etc. return the contained value BEFORE
       // the call, which is inconsistent with what we expect from "+=" etc.,
       // and with what we get from our other atomicity schemes (below). So,
-      // we split the call and the return.
-      atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
-      return T(atom);
+      // we apply the operation to that value once more. (Reading atom again
+      // would pick up what other threads did to it in the meantime.)
+      std::atomic<T> neu(atom.atomics_cpp(val,sync)); // e.g. fetch_add(val,sync)
+      neu.atomics_cpp(val,std::memory_order_relaxed);
+      return T(neu);
    }
    #endif
 
-- 
2.43.0


From e80a5626d0a62307bf8eeec8552b47ab75125b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 32/62] fix: a lua table cannot be read as a matrix

The constructor of multi_array that fills it with one value accepted every
type, so lua_result_t::as<matrix>() tried to fill the matrix with the result
object instead of converting it, and did not compile.
---
 ristra/math/multi_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 482ab11..d4f4858 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -196,7 +196,10 @@ public:
 
   //! \brief Constructor with one value.
   //! \param[in] val The value to set the multi_array to.
-  template < typename T2 >
+  template <
+    typename T2,
+    typename = std::enable_if_t< std::is_convertible<T2, T>::value >
+  >
   multi_array(const T2 & val)
   { 
     //std::cout << "multi_array (single value constructor)\n";
-- 
2.43.0


From 3402ca865f87045a6655362ccd646ec17e36fb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 33/62] fix: lua numbers that do not fit an integer type are
 read as other numbers

3.5 was read as the integer 0, and 2^32+1 as the int 1.  Both are now refused
like any other impossible conversion.
---
 ristra/embedded/embed_lua.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index fc15b0b..f89dd5d 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -30,6 +30,7 @@ extern "C" {
 #include <functional>
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -90,7 +91,18 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
-    auto i = lua_tointeger(s, index);
+    int is_integer = 0;
+    auto i = lua_tointegerx(s, index, &is_integer);
+    // an unsigned type of the same width holds any non-negative value
+    auto fits = std::is_unsigned<T>::value ?
+      i >= 0 && static_cast<std::make_unsigned_t<lua_Integer>>(i) <=
+        std::numeric_limits<T>::max() :
+      i >= static_cast<lua_Integer>(std::numeric_limits<T>::min()) &&
+        i <= static_cast<lua_Integer>(std::numeric_limits<T>::max());
+    if ( !is_integer || !fits )
+     THROW_RUNTIME_ERROR( "Number " << lua_tonumber(s, index) <<
+      " cannot be represented by the requested integer type."
+    );
     lua_remove(s,index);
     return i;
   }
-- 
2.43.0


From eb3221f98377c61da6badd7b824193eda9865610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 34/62] fix: lua strings are cut at their first zero byte

---
 ristra/embedded/embed_lua.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index f89dd5d..a180843 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -166,7 +166,10 @@ struct lua_value<std::string>
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to string."
     );
-    auto str = lua_tostring(s, index);
+    std::size_t len = 0;
+    auto chars = lua_tolstring(s, index, &len);
+    // copy the characters while the value is still on the stack
+    std::string str(chars, len);
     lua_remove(s, index);
     return str;
   }
-- 
2.43.0


From 1518f720b9d8455ddafd2c3dee03481b449d2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 35/62] fix: reading a matrix from lua does not look at its
 rows

A row that was not a table was indexed all the same, which crashes, and rows
that were too long were cut.
---
 ristra/embedded/embed_lua.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index a180843..b8d92dd 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -287,6 +287,10 @@ struct lua_value< Matrix<T,M,N> >
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
       lua_rawgeti(s, -1, i);  // push t[i]
+      if ( !lua_istable(s, -1) || lua_rawlen(s, -1) != N )
+        THROW_RUNTIME_ERROR(
+          "Expecting row " << i << " to be an array of size " << N
+        );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From aab8626156c3a0277f9f3644741df7ed6e73a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 36/62] fix: lua accesses that fail leave their operands on the
 stack

Conversions, lookups and calls that threw left the value, table or error
message behind, until the interpreter refused to grow its stack.  Lookups that
succeeded emptied the whole stack instead of taking off what they had pushed.
---
 ristra/embedded/embed_lua.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index b8d92dd..31865af 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -708,6 +708,18 @@ class lua_result_t : public lua_base_t {
     for ( auto && r : refs_ ) std::forward<decltype(r)>(r).push();
   }
 
+  /// \brief Restores the height of the stack at the end of an access, so that
+  /// one that fails leaves nothing behind.
+  class stack_guard_t {
+    lua_State * state_;
+    int top_;
+  public:
+    explicit stack_guard_t(lua_State * s) : state_(s), top_(lua_gettop(s)) {}
+    stack_guard_t(const stack_guard_t &) = delete;
+    stack_guard_t & operator=(const stack_guard_t &) = delete;
+    ~stack_guard_t() { lua_settop(state_, top_); }
+  };
+
 public:
 
   /// \brief No default constructor.
@@ -766,6 +778,7 @@ public:
   explicit operator T() const {
     if ( refs_.size() != 1 )
       THROW_RUNTIME_ERROR( "Expecting 1 result, stack has " << refs_.size() );
+    stack_guard_t guard(state());
     push_last();
     return lua_value<T>::get(state());
   }
@@ -781,6 +794,7 @@ public:
       THROW_RUNTIME_ERROR( 
         "Expecting "<<N<<" results, stack has " << refs_.size() 
       );
+    stack_guard_t guard(state());
     push_all();
     Tup tup;
     get_results<Tup,0,Args...>(tup);
@@ -820,6 +834,7 @@ public:
     auto s = state();
     // get the current stack position ( the function and arguments will get
     // deleted from the stack after the function call )
+    stack_guard_t guard(s);
     auto pos0 = lua_gettop(s);
     // push the function onto the stack
     check_stack(1);
@@ -868,6 +883,7 @@ public:
     auto s = state();
     auto new_name = name_+".[\""+key+"\"]";
     // push the table onto the stack
+    stack_guard_t guard(s);
     push_last();
     // make sure we are accessing a table
     check_table(name_);
@@ -878,9 +894,8 @@ public:
     lua_rawget(s, -2);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result, the guard pops the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -894,6 +909,7 @@ public:
     auto s = state();
     auto new_name = name_+"["+std::to_string(n)+"]";
     // push the table onto the stack
+    stack_guard_t guard(s);
     push_last();
     // make sure we are accessing a table
     check_table(name_);
@@ -901,9 +917,8 @@ public:
     lua_rawgeti(s, -1, n);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result, the guard pops the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -1001,6 +1016,7 @@ public:
     auto ret = luaL_dostring(state(),script.c_str());
     if ( ret ) {
       print_last_row();
+      lua_pop(state(), 1);
       THROW_RUNTIME_ERROR("Cannot load buffer.");
     }
     return ret;
@@ -1013,6 +1029,7 @@ public:
     auto ret = luaL_dofile(state(),file.c_str());
     if ( ret ) {
       print_last_row();
+      lua_pop(state(), 1);
       THROW_RUNTIME_ERROR("Cannot load file.");
     }
   }
-- 
2.43.0


From bd2d87cd792d011300fb654126fd0a74e7778d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 37/62] fix: a wrapped lua function refers to the object it was
 made from

The wrapper copied the function but called the original, which may be gone.
---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 31865af..d658136 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -976,7 +976,7 @@ struct Lua_Func_Wrapper<std::function<Ret(Args...)>> {
 
   /**\brief Construct from reference to lua_result_t */
   explicit Lua_Func_Wrapper(lua_result_t & lf)
-    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(lf)
+    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(*plua_func_)
   {
   }
 
-- 
2.43.0


From a7720b7850da55e79e6f8461db4cebd8c40e1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:20 +0000
Subject: [PATCH 38/62] fix: python_as_long does not accept floats

PyLong_AsLong has not converted floats since python 3.10, so the result of
adding 1. and 2. was read as -1 with an error pending.
---
 ristra/embedded/embed_python.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 258cc43..e2b5582 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -165,7 +165,11 @@ auto python_get_attribute( PyObject * py_module, std::string attribute )
 
 inline auto python_as_long( PyObject * py_value )
 {
-  return PyLong_AsLong( py_value );
+  // PyLong_AsLong itself accepts no floats
+  auto pint = PyNumber_Long( py_value );
+  auto value = pint ? PyLong_AsLong( pint ) : -1;
+  Py_XDECREF(pint);
+  return value;
 }
 
 inline auto python_as_double( PyObject * py_value )
-- 
2.43.0


From 1e875b08b638d982dd5f8718d87e7523fc5e4653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:20 +0000
Subject: [PATCH 39/62] fix: a python value that is no number makes the next
 python call fail

The conversions returned -1 and left the error pending, where the next call
picked it up.
---
 ristra/embedded/embed_python.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index e2b5582..d26ae79 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -169,12 +169,21 @@ inline auto python_as_long( PyObject * py_value )
   auto pint = PyNumber_Long( py_value );
   auto value = pint ? PyLong_AsLong( pint ) : -1;
   Py_XDECREF(pint);
+  if (value == -1 && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to long.");
+  }
   return value;
 }
 
 inline auto python_as_double( PyObject * py_value )
 {
-  return PyFloat_AsDouble( py_value );
+  auto value = PyFloat_AsDouble( py_value );
+  if (value == -1. && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to double.");
+  }
+  return value;
 }
 
 auto python_get_value( long arg )
-- 
2.43.0


From 2539eb86721552ddb519412640d7c0861dec8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:20 +0000
Subject: [PATCH 40/62] fix: python_add_to_path returns a reference it does not
 own

Releasing it, as the caller does with all other results, destroys sys.path.
---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index d26ae79..17e3cc1 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -150,6 +150,8 @@ auto python_add_to_path( std::string path )
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
   Py_DECREF(pname);
+  // callers release what they get, and PySys_GetObject only lends it
+  Py_INCREF(syspath);
   return syspath; 
 } 
 
-- 
2.43.0


From 7bbb41e62ef05767ee05f84d5a51ac38518eefa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:20 +0000
Subject: [PATCH 41/62] fix: python functions without arguments cannot be
 called

---
 ristra/embedded/embed_python.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 17e3cc1..c0fffdf 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -249,6 +249,9 @@ void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 
 namespace detail {
 
+inline void python_build_args( PyObject *, std::size_t )
+{}
+
 template< typename Arg >
 void python_build_args( PyObject * py_args, std::size_t i, Arg&& arg )
 {
-- 
2.43.0


From 1670328cf89f8aadc0c9ea674c69287b1c233971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 42/62] fix: reading a hard-coded input empties it

hard_coded_source_t::get_value moved the value out of its registry, so a
second resolution of the same string, array or function got an empty one.
---
 ristra/initialization/input_source.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index e4be871..f905a37 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -105,7 +105,7 @@ class hard_coded_source_t : public input_source<hard_coded_source_t>
     auto it = reg.find(k);
     bool found(false);
     if (reg.end() != it) {
-      t = std::move(it->second);
+      t = it->second;
       found = true;
     }
     return found;
-- 
2.43.0


From d7306b64132368e32a07fd365ef8d79112612455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 43/62] fix: inputs unknown to the lua source do not fall back
 to the hard-coded one

lua_source_t::get_value threw for a key it has no table for instead of
reporting it as not found, so no default could be used next to a Lua file.
---
 ristra/initialization/input_source.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index f905a37..0d82708 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -274,6 +274,10 @@ class lua_source_t : public input_source<lua_source_t>
     {
       // check if there is a Lua key distinct from k
       str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
+      // a key the Lua source was never told about is not in it
+      if (0 == ls.m_table_map.count(k)) {
+        return false;
+      }
       bool found = true;
       // now recover the table to look in
       try {
@@ -383,6 +387,10 @@ struct lua_source_t::value_getter<embedded::lua_result_uptr_t> {
   {
     // check if there is a Lua key distinct from k
     str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
+    // a key the Lua source was never told about is not in it
+    if (0 == ls.m_table_map.count(k)) {
+      return false;
+    }
     // now recover the table to look in
     str_cr_t from_name = ls.m_table_map.at(k);
     auto & from_table = ls.m_tables.at(from_name);
-- 
2.43.0


From 6bfb7a178bf0a5e8761a72d56247a2177de47447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 44/62] fix: register_table ignores its lua key and keeps the
 table it displaces

The table was looked up under its C++ name even when a different Lua key was
given, and registering a table again left the first one in place.
---
 ristra/initialization/input_source.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index 0d82708..260d557 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -348,11 +348,13 @@ class lua_source_t : public input_source<lua_source_t>
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
+    str_cr_t l_key(
+      1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(m_lua_state, l_key));
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(from_state, l_key));
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From 4df603c97483b8001dfcc2c3229a59d034475320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 45/62] fix: resolving a function again keeps the hard-coded
 function found first

Values of other types, and functions from Lua, are replaced.
---
 ristra/initialization/input_engine.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 938e6d0..bfae8f8 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -504,12 +504,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            // auto ins_pr =
-            hc_registry.insert(std::make_pair(target, f));
-            // bool inserted = ins_pr.second;
-            // Could have some error checking on whether the thing was
-            // inserted: if it weren't, that might mean this key is already
-            // inhabited, and that would be unexpected.
+            hc_registry[target] = f;
             continue;
           }
         }
@@ -594,7 +589,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry.insert(std::make_pair(target, f));
+          hc_registry[target] = f;
         }
       }
       return found_target;
-- 
2.43.0


From cb821dc1d9126cc23015d8ed91b39d22114271ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 46/62] fix: targets that failed once are reported as failures
 after they resolve

---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index bfae8f8..8535751 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -430,6 +430,7 @@ class input_engine_t
       registry<T> & the_registry(inp.get_registry<T>());
       failed_set_t & failures(inp.get_failed_target_set<T>());
       bool missed_any(false);
+      failures.clear();
       for (auto target : targets) {
         bool found_target(false);
         T tval = T();
@@ -485,6 +486,7 @@ class input_engine_t
       registry<func_t> & hc_registry(inp.get_registry<func_t>());
       failed_set_t & failures(inp.get_failed_target_set<func_t>());
       bool missed_any(false);
+      failures.clear();
       for (auto target : targets) {
         bool found_target(false);
 #ifdef RISTRA_ENABLE_LUA
-- 
2.43.0


From 90591a58a2efe9c3344f1f0dbdff6a60735f18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 47/62] fix: init_value_t::valid does not compile for functions

---
 ristra/initialization/init_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c6b95fd..3bb1a2c 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -111,7 +111,7 @@ class init_value_t
       return false;
     }
     input_engine ie;
-    T & t(ie.template get_value<T>(full_name()));
+    get_return_t t(ie.template get_value<T>(full_name()));
     bool valid = m_valid(t);
     m_status = valid ? status_t::valid : status_t::invalid;
     return valid;
-- 
2.43.0


From a643fc9335a5fd549454a19a6b353d4eaac710bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:37 +0000
Subject: [PATCH 48/62] fix: fixed_vector::insert of one of its own elements
 inserts another one

The reference is taken before the elements are shifted; std::vector copies the
value first.
---
 ristra/utils/fixed_vector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7292187..5b0208b 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -179,10 +179,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
+    // the value may be one of the elements that are about to move
+    const T copy( value );
     // shift data to the right, last element first since the ranges overlap
     std::copy_backward( d_first, end(), std::next(end()) );
     // assign value
-    *d_first = value;
+    *d_first = copy;
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -211,10 +213,12 @@ public:
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
+    // the value may be one of the elements that are about to move
+    const T copy( value );
     // otherwise, shift data to the right
     std::copy_backward( d_first, end(), std::next(end(), count) );
     // assign value
-    std::fill_n( d_first, count, value );
+    std::fill_n( d_first, count, copy );
     // increment counter
     length_ += count;
     // return an iterator to the inserted value
-- 
2.43.0


From ea2f36b0ba1431cf4ca2f4a6249cded9ab5b023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 49/62] fix: filter_iterator dereferences its iterator, moves
 on and starts at a match

---
 ristra/utils/filter_iterator.h | 35 +++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 984e5ce..3f8e88e 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -8,7 +8,11 @@
 ////////////////////////////////////////////////////////////////////////////////    
 #pragma once
 
-// user includes
+// system includes
+#include <cstddef>
+#include <iterator>
+#include <type_traits>
+#include <utility>
 
 namespace ristra {
 namespace utils {
@@ -33,7 +37,10 @@ public:
   using difference_type = typename std::iterator_traits<Iterator>::difference_type;
   using pointer = typename std::iterator_traits<Iterator>::pointer;
   using reference = typename std::iterator_traits<Iterator>::reference;
-  using iterator_category = typename std::iterator_traits<Iterator>::iterator_category;
+  //! \remark going backwards or jumping is not supported
+  using iterator_category = std::common_type_t<
+    typename std::iterator_traits<Iterator>::iterator_category,
+    std::forward_iterator_tag >;
 
   //! \brief the size type
   using size_type = std::size_t;
@@ -52,7 +59,8 @@ public:
   //!        no default constructor either
   constexpr filter_iterator( 
     Predicate pred, Iterator first, Iterator last = Iterator() ) noexcept
-    : pred_( pred ), iter_(first), end_(last) {}
+    : pred_( pred ), iter_(first), end_(last)
+  { skip(); }
 
   template<
     class OtherIterator,
@@ -61,7 +69,7 @@ public:
   >
   filter_iterator( 
     filter_iterator<Predicate, OtherIterator> const& other ) noexcept
-    : pred_( other.predicate() ), iter_( *other ), end_( end() )
+    : pred_( other.predicate() ), iter_( other.begin() ), end_( other.end() )
   {}
 
   //! \brief default copy constructor
@@ -98,18 +106,16 @@ public:
   //============================================================================
   
   //! \brief return the current value
-  constexpr reference operator*() const noexcept { return iter_; }
+  constexpr reference operator*() const noexcept { return *iter_; }
 
   //! \brief return a pointer to the current value
-  constexpr pointer operator->() const noexcept { return &iter_; }
+  constexpr pointer operator->() const noexcept { return &*iter_; }
 
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
   {
-    for (; iter_ != end_ ; ++iter_) {
-      if ( pred_(*iter_) )
-        return *this;
-    }
+    ++iter_;
+    skip();
     return *this;
   }
 
@@ -153,6 +159,13 @@ public:
 
 private:
 
+  //! \brief move on to the next element that satisfies the predicate, if the
+  //!        current one does not
+  constexpr void skip() noexcept
+  {
+    while ( iter_ != end_ && !pred_(*iter_) ) ++iter_;
+  }
+
   //============================================================================
   /// \name private data
   //============================================================================
@@ -178,7 +191,7 @@ private:
 template <class Predicate, class Iterator>
 auto make_filter_iterator( Iterator && first, Iterator && last, Predicate && pred ) 
 {
-  return filter_iterator<Predicate, Iterator>( 
+  return filter_iterator< std::decay_t<Predicate>, std::decay_t<Iterator> >( 
     std::forward<Predicate>(pred), 
     std::forward<Iterator>(first), 
     std::forward<Iterator>(last)
-- 
2.43.0


From 05e084223127a8dae6831cc0467d33cfee1c7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 50/62] fix: tuple_to_array names std::tuple and std::get and
 includes what it uses

---
 ristra/utils/tuple_to_array.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/tuple_to_array.h b/ristra/utils/tuple_to_array.h
index 5699cac..6addac0 100644
--- a/ristra/utils/tuple_to_array.h
+++ b/ristra/utils/tuple_to_array.h
@@ -9,6 +9,12 @@
 
 #pragma once
 
+// system includes
+#include <array>
+#include <cstddef>
+#include <tuple>
+#include <utility>
+
 namespace ristra {
 namespace utils {
 
@@ -24,7 +30,7 @@ template<typename T, typename... U, std::size_t... I>
 inline Array<T, U...>
 to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 {
-  return Array<T, U...>{ get<I>(t)... };
+  return Array<T, U...>{ std::get<I>(t)... };
 }
 
 } // detail
@@ -35,7 +41,7 @@ to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 ////////////////////////////////////////////////////////////////////////////////
 template<typename T, typename... U>
 inline detail::Array<T, U...>
-to_array(const tuple<T, U...>& t)
+to_array(const std::tuple<T, U...>& t)
 {
   using IndexTuple = std::make_index_sequence<1+sizeof...(U)>;
   return detail::to_array(t, IndexTuple());
-- 
2.43.0


From ec6ac8d294b940dad7d00f59795fed0dfe492fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 51/62] fix: time_utils.h includes the error macros and can be
 used in several files

---
 ristra/utils/time_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/time_utils.h b/ristra/utils/time_utils.h
index dd7a553..fced339 100644
--- a/ristra/utils/time_utils.h
+++ b/ristra/utils/time_utils.h
@@ -10,6 +10,7 @@
 #pragma once
 
 #include "ristra/ristra-config.h"
+#include "ristra/assertions/errors.h"
 
 //! system includes
 #ifdef RISTRA_ENABLE_MPI
@@ -28,7 +29,7 @@ namespace utils {
 //! \brief Return the wall time counter.
 //! \return the wall time
 ////////////////////////////////////////////////////////////////////////////////
-double get_wall_time(void)
+inline double get_wall_time(void)
 {
 
 #ifdef RISTRA_ENABLE_MPI
@@ -60,7 +61,7 @@ double get_wall_time(void)
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief Convert seconds to days:hours:minutes:seconds.
 ////////////////////////////////////////////////////////////////////////////////
-void daysHoursMinutesSeconds( 
+inline void daysHoursMinutesSeconds( 
   const long long input_seconds, //!< [in] total number of seconds
   long long & days,              //!< [out] number of days
   int & hours,                   //!< [out] number of hours
-- 
2.43.0


From 122c3140be9d068f300b013016401ce62f008a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:28 +0000
Subject: [PATCH 52/62] fix: catalyst helpers include <iostream>

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 1 +
 ristra/io/catalyst/utils/insituTimer.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 95f8b7f..e685f9f 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -3,6 +3,7 @@
 #include <vector>
 #include <string>
 #include <fstream>
+#include <iostream>
 #include <iterator>
 #include <string>
 #include <algorithm>
diff --git a/ristra/io/catalyst/utils/insituTimer.hpp b/ristra/io/catalyst/utils/insituTimer.hpp
index 71ecf23..c1a3969 100644
--- a/ristra/io/catalyst/utils/insituTimer.hpp
+++ b/ristra/io/catalyst/utils/insituTimer.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <chrono>
+#include <iostream>
 #include <string>
 #include <ctime>
 #include <sstream>
-- 
2.43.0


From 525324759006aeb2ee87e772ffd0292679e0ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:28 +0000
Subject: [PATCH 53/62] fix: catalyst scripts of an input file in the current
 directory

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index e685f9f..abc2875 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -21,7 +21,9 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
       //
       // Find the path 
       std::size_t foundBackslash = inputFilename.find_last_of("/");
-      std::string catalystPath = inputFilename.substr(0,foundBackslash);
+      std::string catalystPath = ".";
+      if (foundBackslash != std::string::npos)
+        catalystPath = inputFilename.substr(0,foundBackslash);
 
       //
       // Pass JSON file to json parser and
-- 
2.43.0


From 6be9c123b515ab19ab22f208870055ae74f27adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:28 +0000
Subject: [PATCH 54/62] fix: imageCompare frees the images it loads

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index abc2875..a2786d1 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <iostream>
 #include <iterator>
+#include <memory>
 #include <string>
 #include <algorithm>
 
@@ -72,8 +73,11 @@ inline bool fileExists(const std::string& name)
 
 inline bool imageCompare(std::string imageA, std::string imageB)
 {
+  using image_ptr_t = std::unique_ptr<unsigned char, decltype(&stbi_image_free)>;
+
   int widthA, heightA, channelsA;
-  unsigned char *imgA = stbi_load(imageA.c_str(), &widthA, &heightA, &channelsA, 0);
+  image_ptr_t ptrA(stbi_load(imageA.c_str(), &widthA, &heightA, &channelsA, 0), &stbi_image_free);
+  unsigned char *imgA = ptrA.get();
   if (imgA == NULL)
   {
     std::cout << "Test failed: Could not load " << imageA << std::endl;
@@ -81,7 +85,8 @@ inline bool imageCompare(std::string imageA, std::string imageB)
   }
 
   int widthB, heightB, channelsB;
-  unsigned char *imgB = stbi_load(imageB.c_str(), &widthB, &heightB, &channelsB, 0);
+  image_ptr_t ptrB(stbi_load(imageB.c_str(), &widthB, &heightB, &channelsB, 0), &stbi_image_free);
+  unsigned char *imgB = ptrB.get();
   if (imgB == NULL)
   {
     std::cout << "Test failed: Could not load " << imageB << std::endl;
-- 
2.43.0


From 016b31ff4d2c8e63ef88a306a6921b2dfd2abf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:39 +0000
Subject: [PATCH 55/62] fix: replaceInString leaves a string without the text
 to replace as it is

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index a2786d1..0d7d757 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -52,7 +52,8 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
 inline std::string replaceInString(std::string original, std::string stringToReplace, std::string replacement)
 {
   auto found = original.find(stringToReplace);
-  original.replace(found, stringToReplace.length(), replacement);
+  if (found != std::string::npos)
+    original.replace(found, stringToReplace.length(), replacement);
 
   return original;
 }
-- 
2.43.0


From 39b9424c9b8ff23e97ceda76bf1f4850919729fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 56/62] fix: release the arrays and the writer handed to VTK

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h |  1 +
 ristra/io/catalyst/vtk/unstructuredGrid.h      | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index a00021b..2d50418 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -186,6 +186,7 @@ inline void outputVTKUnstructredGrid(std::string filename, vtkSmartPointer<vtkUn
 	writer->SetFileTypeToBinary();
 	writer->SetFileName(filename.c_str());
 	writer->Write();
+	writer->Delete();
 }
 
 
diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index 121dbe5..3422f75 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -334,6 +334,8 @@ inline void UnstructuredGrid::addVectorData(std::string varName, int numPoints,
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -364,6 +366,8 @@ inline void UnstructuredGrid::addScalarData(std::string varName, T *data, size_t
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -383,6 +387,8 @@ inline void UnstructuredGrid::addVectorData(std::string varName, std::vector< st
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -402,6 +408,8 @@ inline void UnstructuredGrid::addTensorData(std::string varName, std::vector< st
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -518,6 +526,8 @@ inline void setScalarData(std::string varName, T *data, size_t numPoints, int ty
   		uGrid->GetPointData()->AddArray(temp);
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -537,6 +547,8 @@ inline void setVectorData(std::string varName, std::vector< std::vector<T> > dat
   		uGrid->GetPointData()->AddArray(temp);	//SetVectors(temp)
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
@@ -556,6 +568,8 @@ inline void setTensorData(std::string varName, std::vector< std::vector<T> > dat
   		uGrid->GetPointData()->AddArray(temp);	//SetTensors(temp)
   	else
   		uGrid->GetCellData()->AddArray(temp);
+
+  	temp->Delete();
 }
 
 
-- 
2.43.0


From a625cbc5d6fb638f9b925d4819d765db2efed8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 57/62] fix: UnstructuredGrid::reset starts over instead of
 releasing its points and cells twice

---
 ristra/io/catalyst/vtk/unstructuredGrid.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index 3422f75..57bc27f 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -288,8 +288,9 @@ inline void UnstructuredGrid::pushPointsToGrid()
 
 inline void UnstructuredGrid::reset()
 {
-	pnts->Delete();
-	cells->Delete();
+	// the smart pointers release the old ones, unless the grid uses them
+	pnts = vtkSmartPointer<vtkPoints>::New();
+	cells = vtkSmartPointer<vtkCellArray>::New();
 
 	idx = 0;
 }
-- 
2.43.0


From 50670e281be699488fe9959f956fde4ae215385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 58/62] fix: createMesh stays inside its coordinate buffer in
 two dimensions

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index 2d50418..3f20d70 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -288,7 +288,7 @@ inline vtkSmartPointer<vtkUnstructuredGrid> createMesh(mesh_t &m)
     	int count = 0;
       	for ( int i=0; i<num_dims; i++ )
       	{
-      		vertex_coord[ v.id()*3 + i] = coords[i];
+      		vertex_coord[ v.id()*num_dims + i] = coords[i];
       		vertex.push_back(coords[i]);
       		count++;
       	}
-- 
2.43.0


From d71f8fb1d2684a07c4e1191628efe4d7c5734ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 59/62] fix: finalizeAdaptor returns a value

---
 ristra/io/catalyst/adaptor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/io/catalyst/adaptor.h b/ristra/io/catalyst/adaptor.h
index 71d6f37..f1750fd 100644
--- a/ristra/io/catalyst/adaptor.h
+++ b/ristra/io/catalyst/adaptor.h
@@ -127,6 +127,8 @@ inline vtkCPProcessor* finalizeAdaptor(vtkCPProcessor* processor)
 
   clock.stop("finalizeAdaptor");
   std::cout << "Finalize Catalyst Adaptor:" << clock.getDuration("finalizeAdaptor") << " s" << std::endl;
+
+  return processor;
 }
 
 
-- 
2.43.0


From b7c80a8abb77afd074dbad822bf89fb0a13c6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:28 +0000
Subject: [PATCH 60/62] fix: fixed_vector::assign of a count and a value does
 not compile for integers

---
 ristra/utils/fixed_vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 5b0208b..f52aa3e 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -94,7 +94,10 @@ public:
     std::fill_n( begin(), count, value );
   }
 
-  template< class InputIt >
+  template< 
+    class InputIt,
+    typename = typename std::enable_if_t< is_iterator_v<InputIt> >
+  >
   void assign( InputIt first, InputIt last )
   {
     length_ = std::distance( first, last );
-- 
2.43.0


From be8e2bee3a07da57a542819df36e5b3ac6d23110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:08 +0000
Subject: [PATCH 61/62] fix: values returned by scripts pile up on the Lua
 stack

---
 ristra/embedded/embed_lua.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index d658136..df49ec8 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -1013,12 +1013,15 @@ public:
   /// \return The lua error code.
   bool run_string( const std::string & script )
   {
+    auto top = lua_gettop(state());
     auto ret = luaL_dostring(state(),script.c_str());
     if ( ret ) {
       print_last_row();
       lua_pop(state(), 1);
       THROW_RUNTIME_ERROR("Cannot load buffer.");
     }
+    // discard what the script returns
+    lua_settop(state(), top);
     return ret;
   }
 
@@ -1026,12 +1029,15 @@ public:
   /// \param [in] file  The file to load.
   void loadfile( const std::string & file )
   {
+    auto top = lua_gettop(state());
     auto ret = luaL_dofile(state(),file.c_str());
     if ( ret ) {
       print_last_row();
       lua_pop(state(), 1);
       THROW_RUNTIME_ERROR("Cannot load file.");
     }
+    // discard what the file returns
+    lua_settop(state(), top);
   }
 
   /// \brief Access an object in the global table.
-- 
2.43.0


From 1cbf872fa9fbc7089d679f63f6887e2e9208177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:06 +0000
Subject: [PATCH 62/62] fix: failing Python imports and calls lose references

python_import kept the name when the import failed, python_call_function the
argument tuple when the call raised.
---
 ristra/embedded/embed_python.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index c0fffdf..d7b9f1c 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -117,11 +117,11 @@ auto python_import( std::string name )
     THROW_RUNTIME_ERROR("Cannot decode module name \"" << name << "\"");
   }
   auto pmodule = PyImport_Import(pname);
+  Py_DECREF(pname);
   if (!pmodule) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot import module \"" << name << "\"");
   }
-  Py_DECREF(pname);
   return pmodule;
 }
 
@@ -141,7 +141,9 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot decode path \"" << path << "\"");
   }
-  if (PyList_Insert(syspath, 0, pname)) {
+  auto failed = PyList_Insert(syspath, 0, pname);
+  Py_DECREF(pname);
+  if (failed) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot insert path \"" << path << "\"");
   }
@@ -149,7 +151,6 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
-  Py_DECREF(pname);
   // callers release what they get, and PySys_GetObject only lends it
   Py_INCREF(syspath);
   return syspath; 
@@ -296,11 +297,11 @@ auto python_call_function( PyObject * py_func, Args&&... args )
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
   auto pval = PyObject_CallObject(py_func, pargs);
+  Py_DECREF(pargs);
   if (!pval) {
     python_check();
     THROW_RUNTIME_ERROR("Problem calling function.");
   }
-  Py_DECREF(pargs);
   return pval;
 }
 
-- 
2.43.0

