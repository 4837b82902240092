From 36d892b6be07663ebc06bc2a33972622062b0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 01/15] fix: linearIndex strides are the product of the
 trailing ranges

---
 include/shiva/common/IndexTypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..b061f61 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -60,10 +60,10 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
 
   // call strideHelper on an integer_sequence that ranges from 0...(NUM_INDICES
   // - 1 - INDEX).
-  // This will result in a fold expression that multiples entries of the ranges
-  // array for the integer_sequence.
+  // This will result in a fold expression that multiples the entries of the
+  // ranges array that follow INDEX.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               &(index.ranges[0]) + INDEX + 1 );
 }
 
 /**
-- 
2.43.0


From 9a6e3984d426f7ac64b50e0295b0b95f849870c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 02/15] fix: jacobian overwrites its output instead of adding
 to it

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..8462bd4 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -168,6 +168,11 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = 0;
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -215,6 +220,11 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   auto const & nodeCoords = transform.getData();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = 0;
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     constexpr CArrayNd< REAL_TYPE, DIMS > dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( qcoords );
-- 
2.43.0


From 179502d0fd00e6290c8ea7dcacb4aa00a2c88c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 03/15] fix: setData strides follow the number of support
 points

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 8462bd4..f7b9e27 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -121,7 +121,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + SupportIndexType::range( 0 ) * ( b + SupportIndexType::range( 1 ) * c )][i];
       }
     } );
   }
-- 
2.43.0


From 827863c1b5ae114c362fcac8e8955109770c8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 04/15] fix: numMCubes no longer overflows int in an
 intermediate product

---
 include/shiva/geometry/shapes/NCube.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index dc1b370..6366e17 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -76,7 +76,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int numMCubes()
   {
     static_assert( M <= N, "M must be less than or equal to N" );
-    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::factorial< int, N >::value / ( mathUtilities::factorial< int, M >::value * mathUtilities::factorial< int, N - M >::value );
+    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::binomialCoefficient< int, N, M >::value;
   }
 
   /**
-- 
2.43.0


From fe6ef35596c9466b64a9321e9b0dd10543f7dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 05/15] fix: run-time Gauss-Lobatto coordinates for 6 to 9
 points

---
 include/shiva/functions/spacing/Spacing.hpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..ea4e73f 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,30 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { -1.0, -0.7650553239294648, -0.2852315164806455,
+                                      0.2852315164806455, 0.7650553239294648, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { -1.0, -0.83022389627857, -0.4688487934707, 0.0,
+                                      0.4688487934707, 0.83022389627857, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { -1.0, -0.87174014850961, -0.59170018143314, -0.20929921790248,
+                                      0.20929921790248, 0.59170018143314, 0.87174014850961, 1.0 };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { -1.0, -0.89975799541146, -0.67718627951074, -0.36311746382618, 0.0,
+                                      0.36311746382618, 0.67718627951074, 0.89975799541146, 1.0 };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From aee0f5d1825eed9a4d4d327010bff26ce6e7b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 06/15] fix: basis functions compile in C++20 and later

---
 include/shiva/functions/bases/BasisProduct.hpp  | 4 ++--
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..e072e52 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
@@ -142,7 +142,7 @@ struct BasisProduct
         return ( gradientComponentHelper< BASIS_TYPES,
                                           decltype(iGrad)::value,
                                           BASIS_FUNCTION_INDICES,
-                                          PRODUCT_TERM_INDICES >( parentCoord ) * ... );
+                                          decltype(PRODUCT_TERM_INDICES)::value >( parentCoord ) * ... );
       };
 
       return { (executeSequence< numDims >( gradientComponent, std::integral_constant< int, i >{} ) )...  };
diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From efd86bbba6af5b6b0509851b403ddc46a9c134f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 07/15] fix: executeSequence tests invocability with the
 arguments in calling order

---
 include/shiva/common/SequenceUtilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/SequenceUtilities.hpp b/include/shiva/common/SequenceUtilities.hpp
index 02eeee4..193ee13 100644
--- a/include/shiva/common/SequenceUtilities.hpp
+++ b/include/shiva/common/SequenceUtilities.hpp
@@ -127,7 +127,7 @@ struct SequenceExpansion< std::integer_sequence< int, DIMENSION_INDICES... > >
     // This checks to see if the function is invocable with the parameter pack
     // provided as a template parameter. In other words, if the FUNC is a
     // function that takes the parameter pack as a function argument.
-    if constexpr ( std::is_invocable_v< FUNC, std::integral_constant< int, DIMENSION_INDICES >..., ARGS ... > )
+    if constexpr ( std::is_invocable_v< FUNC, ARGS ..., std::integral_constant< int, DIMENSION_INDICES >... > )
     {
       // calling func with the parameter packs ( args..., DIMENSION_INDICES...)
       // as arguments.
-- 
2.43.0


From 2f70b0850b8b5ba6d97aaf00c77daa2e73191734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 08/15] fix: field gradient of a float parent element compiles
 (no narrowing)

---
 .../finiteElementMethod/parentElements/ParentElement.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
index 20c8a99..f2d2ea9 100644
--- a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
+++ b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
@@ -128,7 +128,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE CArrayNd< RealType, numDims >
   gradient( CoordType const & parentCoord, VAR_TYPE const & var )
   {
-    CArrayNd< RealType, numDims > rval = {0.0};
+    CArrayNd< RealType, numDims > rval = { RealType( 0 ) };
     forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
     {
       CArrayNd< RealType, numDims > const grad = gradient< decltype(ic_indices)::value ... >( parentCoord );
-- 
2.43.0


From fc02607c549d04f38a2bc0f38516b95af990f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 09/15] fix: by-value Jacobians of float cells compile (no
 narrowing)

---
 include/shiva/geometry/mapping/JacobianTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 2b533f5..772eddf 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -48,7 +48,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 jacobian( BASE_GEOMETRY const & cell,
           REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType J{0.0 };
+  typename BASE_GEOMETRY::JacobianType J{ REAL_TYPE( 0 ) };
   jacobian( cell, parentCoords, J );
   return J;
 }
@@ -58,7 +58,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
+  typename BASE_GEOMETRY::JacobianType invJ{ REAL_TYPE( 0 ) };
   REAL_TYPE detJ;
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
-- 
2.43.0


From ca059d590356e92ed1ca8431c80470e9432a8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 10/15] fix: ScalarView aliases its data instead of declaring a
 scalar buffer

---
 include/shiva/common/CArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index d7cb7d5..0d81841 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -271,7 +271,7 @@ using CArrayNd = CArray< T, T[CArrayHelper::size< DIMS ... >()], DIMS ... >;
  * @tparam T Type held in the scalar
  */
 template< typename T >
-using ScalarView = CArray< T, T, 1 >;
+using ScalarView = CArray< T, T * const, 1 >;
 
 /**
  * @brief Alias for a N-d array view.
-- 
2.43.0


From 5f7e81d693a8c3799a3cca2bbfaa4f780a94aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 11/15] fix: forRange works for every base index type

---
 include/shiva/common/IndexTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index b061f61..a81638b 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -105,7 +105,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // if we are at the last dimension, then call func on index
   if constexpr ( DIM == (IndexType::NUM_INDICES - 1) )
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       func( index );
@@ -114,7 +114,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // otherwise, recurse until we get to the last index
   else
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       forRangeHelper< DIM + 1 >( start, index, func );
-- 
2.43.0


From 4e0171b7e35fc63939f860c66cb26f89ea301a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 12/15] fix: multi-index ranges and strides use the base index
 type

---
 include/shiva/common/IndexTypes.hpp | 7 ++++---
 include/shiva/common/MultiIndex.hpp | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index a81638b..3fccebd 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -30,14 +30,15 @@ namespace detail
 
 /**
  * @brief Helper function for calculating a stride.
+ * @tparam BASE_INDEX_TYPE the base type of the index...i.e. "int"
  * @tparam INDICES variaic pack of the indices.
  * @param ranges The ranges.
  * @return The largest stride for the index pack.
  */
-template< int ... INDICES >
-SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int
+template< typename BASE_INDEX_TYPE, int ... INDICES >
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
-              int const * const ranges )
+              BASE_INDEX_TYPE const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
diff --git a/include/shiva/common/MultiIndex.hpp b/include/shiva/common/MultiIndex.hpp
index 0826173..2439918 100644
--- a/include/shiva/common/MultiIndex.hpp
+++ b/include/shiva/common/MultiIndex.hpp
@@ -61,14 +61,14 @@ struct MultiIndexRange
   static constexpr int NUM_INDICES = sizeof...(RANGES);
 
   /// contains the range for each index
-  static constexpr int ranges[NUM_INDICES] = { RANGES ...};
+  static constexpr BASE_INDEX_TYPE ranges[NUM_INDICES] = { RANGES ...};
 
   /**
    * @brief Returns the range for a given index.
    * @param i The index.
    * @return The range for the given index.
    */
-  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int range( int const i )
+  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE range( int const i )
   {
     return ranges[i];
   }
-- 
2.43.0


From aa498f2e952133f6d5397614975d06d83a9ddddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 13/15] fix: quadrature point Jacobian compiles in more than
 three dimensions

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index f7b9e27..9cbb018 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -218,7 +218,7 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
-  constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
+  constexpr REAL_TYPE qcoords[DIMS] = { ( QUADRATURE::template coordinate< QA >() )... };
 
   forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
   {
-- 
2.43.0


From 708f356919e29221a6c7459ca02e88efff9e059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 14/15] fix: cube and simplex lengths do not overflow int

---
 include/shiva/geometry/shapes/NCube.hpp    | 2 +-
 include/shiva/geometry/shapes/NSimplex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index 6366e17..d83ace9 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -173,7 +173,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
diff --git a/include/shiva/geometry/shapes/NSimplex.hpp b/include/shiva/geometry/shapes/NSimplex.hpp
index 5fec076..c899e22 100644
--- a/include/shiva/geometry/shapes/NSimplex.hpp
+++ b/include/shiva/geometry/shapes/NSimplex.hpp
@@ -170,7 +170,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
-- 
2.43.0


From 947e8306a67fd212bea917ee8f65d714f9912cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 15/15] fix: the tolerance check neither underflows nor
 overflows

---
 include/shiva/common/pmpl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..df5664c 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -71,7 +71,10 @@ namespace pmpl
 template< typename REAL_TYPE >
 static constexpr bool check( REAL_TYPE const a, REAL_TYPE const b, REAL_TYPE const tolerance )
 {
-  return ( a - b ) * ( a - b ) < tolerance * tolerance;
+  // compare magnitudes, as the squares may underflow or overflow
+  REAL_TYPE const difference = a < b ? b - a : a - b;
+  REAL_TYPE const magnitude = tolerance < 0 ? -tolerance : tolerance;
+  return difference < magnitude;
 }
 
 
-- 
2.43.0

