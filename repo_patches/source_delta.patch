From f31b9595928feb7367fe7b588a60eec6cefa91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 1/8] fix: LVARRAY_ERROR_IF_LE and LVARRAY_THROW_IF_LE tested
 for >= instead of <=

---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From d375f3ed66cf281ddf891704a712a51407011472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 2/8] fix: integerConversion silently wrapped negative values
 converted to a wider unsigned type

---
 src/limits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limits.hpp b/src/limits.hpp
index 9a55104..4f7d754 100644
--- a/src/limits.hpp
+++ b/src/limits.hpp
@@ -120,7 +120,8 @@ constexpr bool sameSignedness = ( std::is_signed< T >::value && std::is_signed<
  * @brief True iff @tparam OUTPUT can hold every possible value of @tparam INPUT.
  */
 template< typename INPUT, typename OUTPUT >
-constexpr bool canEasilyConvert = sizeof( INPUT ) < sizeof( OUTPUT ) ||
+constexpr bool canEasilyConvert = ( sizeof( INPUT ) < sizeof( OUTPUT ) &&
+                                    ( std::is_unsigned< INPUT >::value || std::is_signed< OUTPUT >::value ) ) ||
                                   ( sizeof( INPUT ) == sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > );
 
 } // namespace internal
-- 
2.43.0


From 15f2bb8487d8e4071633e1515239eb2f17c2f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 3/8] fix: math::getFirst and math::getSecond did not compile
 for scalar types

---
 src/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.hpp b/src/math.hpp
index f832e0f..b197055 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -77,7 +77,7 @@ struct SingleType
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getFirst( T const x )
+typename SingleType< T >::type getFirst( T const x )
 { return x; }
 
 /**
@@ -87,7 +87,7 @@ SingleType< T > getFirst( T const x )
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getSecond( T const x )
+typename SingleType< T >::type getSecond( T const x )
 { return x; }
 
 /**
-- 
2.43.0


From 576c8a4004fe71bfb966e93f5cf564598d4b6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 4/8] fix: resetSignalHandling did not restore the original
 handlers after a second setSignalHandling

---
 src/system.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index 019fe66..37476bd 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -490,6 +490,9 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
+  // The handlers an earlier call installed are not the original ones, hold on to those.
+  std::map< int, handle_type > const original = initialHandler;
+
   initialHandler[SIGHUP] = signal( SIGHUP, handler );
   initialHandler[SIGINT] = signal( SIGINT, handler );
   initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
@@ -510,6 +513,11 @@ void setSignalHandling( void (* handler)( int ) )
   initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
   initialHandler[SIGTERM] = signal( SIGTERM, handler );
 
+  for( auto const & a : original )
+  {
+    initialHandler[ a.first ] = a.second;
+  }
+
   return;
 }
 
@@ -520,6 +528,8 @@ void resetSignalHandling()
   {
     signal( a.first, a.second );
   }
+
+  initialHandler.clear();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2a35b05d9b6640cde1788d852a1702be941ab7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 5/8] fix: calculateSize truncated the text of sizes of 10000
 GB and more

---
 src/system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 37476bd..3715c18 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -425,8 +425,8 @@ std::string calculateSize( size_t const bytes )
 
   double const units = double( bytes ) / ( 1 << shift );
 
-  char result[10];
-  std::snprintf( result, 10, "%.1f %s", units, suffix );
+  char result[32]; // The largest size takes 17 characters.
+  std::snprintf( result, sizeof( result ), "%.1f %s", units, suffix );
   return result;
 }
 
-- 
2.43.0


From eb11d405bb6995123a5112fc08fbba4caa06065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 6/8] fix: introsortLoop writes past its stack of ranges when
 the pivots are bad

With enough bad pivots nRanges reached the end of the fixed-size stack of ranges and the
next partition was written past it. Leave such a range to the final insertion sort.
---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..b186a15 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // When the stack of ranges is full the range is left as it is, the final insertion sort puts it in order.
+    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD && nRanges < MAX_RANGES )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0


From a664fe284359241f3d1fe17ed37790831cad176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:49 +0000
Subject: [PATCH 7/8] fix: release the storage of the target of a move
 assignment

---
 src/Array.hpp       | 1 +
 src/SortedArray.hpp | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..b0a2367 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -192,6 +192,7 @@ public:
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..6b577f3 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -111,7 +111,12 @@ public:
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    bufferManipulation::free( this->m_values, size() );
+    ParentClass::operator=( std::move( src ) );
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From 4599231d99656d9c61ba50cc6207786915602e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:36 +0000
Subject: [PATCH 8/8] fix: a moved-from Array keeps usable strides

---
 src/Array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index b0a2367..dc40358 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -153,8 +153,8 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       source.m_dims[ i ] = 0;
-      source.m_strides[ i ] = 0;
     }
+    source.m_strides = indexing::calculateStrides< PERMUTATION >( source.m_dims );
   }
 
   /**
@@ -198,8 +198,8 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       rhs.m_dims[ i ] = 0;
-      rhs.m_strides[ i ] = 0;
     }
+    rhs.m_strides = indexing::calculateStrides< PERMUTATION >( rhs.m_dims );
 
     return *this;
   }
-- 
2.43.0

