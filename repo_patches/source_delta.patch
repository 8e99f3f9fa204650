From 729d61cc55d92884bfd07572fdbd4975f90167e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:54 +0000
Subject: [PATCH 001/148] fix: include the highest dimension in Euler
 characteristics

Both calculations stopped before the largest dimension, so that the
top-dimensional simplices or Betti number did not contribute.
---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index b85541e..8528060 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -30,7 +30,7 @@ template <class SimplicialComplex> long eulerCharacteristic( const SimplicialCom
   }
 
   short s = 1;
-  for( std::size_t d = 0; d < K.dimension(); d++ )
+  for( std::size_t d = 0; d <= K.dimension(); d++ )
   {
     chi += s * cardinality[d];
     s    = s * (-1);
@@ -64,7 +64,7 @@ template <class InputIterator> long eulerCharacteristic( InputIterator begin,
   long chi = 0;
   short s  = 1;
 
-  for( std::size_t d = 0; d < D; d++ )
+  for( std::size_t d = 0; d <= D; d++ )
   {
     chi += s * betti[d];
     s   *= (-1);
-- 
2.43.0


From a70f1d6451c2efc0d7ace34badab0ff60584edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:54 +0000
Subject: [PATCH 002/148] fix: make persistentEulerCharacteristic() usable

The function referred to the dimension member function without calling
it and could not be instantiated.
---
 include/aleph/persistentHomology/EulerCharacteristic.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/EulerCharacteristic.hh b/include/aleph/persistentHomology/EulerCharacteristic.hh
index 8528060..1e7f0c1 100644
--- a/include/aleph/persistentHomology/EulerCharacteristic.hh
+++ b/include/aleph/persistentHomology/EulerCharacteristic.hh
@@ -1,6 +1,8 @@
 #ifndef ALEPH_EULER_CHARACTERISTIC_HH__
 #define ALEPH_EULER_CHARACTERISTIC_HH__
 
+#include <cmath>
+
 #include <iterator>
 #include <map>
 
@@ -98,7 +100,7 @@ template <class InputIterator> auto persistentEulerCharacteristic( InputIterator
   for( auto it = begin; it != end; ++it )
   {
     auto&& diagram = *it;
-    auto s         = std::pow( -1, it->dimension);
+    auto s         = std::pow( -1, it->dimension() );
 
     for( auto&& point : diagram )
       chi += s * point.persistence();
-- 
2.43.0


From e9777209a3b7382172c3c659039c64dbcfded0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:40 +0000
Subject: [PATCH 003/148] fix: handle unpaired creators when creating diagrams
 of 1D functions

The global minimum of a function is never destroyed. Its pairing entry
has no valid destroyer index, which made the lookup throw for every
connected function.
---
 include/aleph/persistenceDiagrams/Calculation.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Calculation.hh b/include/aleph/persistenceDiagrams/Calculation.hh
index 0c58a8c..88a760b 100644
--- a/include/aleph/persistenceDiagrams/Calculation.hh
+++ b/include/aleph/persistenceDiagrams/Calculation.hh
@@ -93,7 +93,10 @@ PersistenceDiagram<DataType> makePersistenceDiagram( const PersistencePairing<In
     auto&& i = pair.first;
     auto&& j = pair.second;
 
-    D.add( functionValues.at(i), functionValues.at(j) );
+    if( j < functionValues.size() )
+      D.add( functionValues.at(i), functionValues.at(j) );
+    else
+      D.add( functionValues.at(i) );
   }
 
   return D;
-- 
2.43.0


From 850de60d4972224bf7025e2a0348e375e722fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:33 +0000
Subject: [PATCH 004/148] fix: report all vertices of a simplicial complex

The documentation promises every vertex that occurs in at least one
simplex, but only vertices stored as 0-simplices were reported.
---
 include/aleph/topology/SimplicialComplex.hh | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/aleph/topology/SimplicialComplex.hh b/include/aleph/topology/SimplicialComplex.hh
index cc8f333..3e0709d 100644
--- a/include/aleph/topology/SimplicialComplex.hh
+++ b/include/aleph/topology/SimplicialComplex.hh
@@ -285,15 +285,8 @@ public:
 
     std::set<typename Simplex::vertex_type> vertices;
 
-    const_dimension_iterator d_it;
-    const_dimension_iterator d_it_end;
-
-    for( std::tie( d_it, d_it_end ) = this->range( 0 );
-         d_it != d_it_end;
-         ++d_it )
-    {
-      vertices.insert( *( d_it->begin() ) );
-    }
+    for( auto&& simplex : _simplices )
+      vertices.insert( simplex.begin(), simplex.end() );
 
     std::copy( vertices.begin(), vertices.end(), result );
   }
-- 
2.43.0


From 0e274aa0e640648a3096798444f632d43f8bc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:38 +0000
Subject: [PATCH 005/148] fix: report degrees of isolated vertices

Degrees are documented to follow the order of the vertices of the complex.
Vertices without any co-face were skipped, which shifted all subsequent
degrees.
---
 include/aleph/topology/filtrations/Degree.hh | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/filtrations/Degree.hh b/include/aleph/topology/filtrations/Degree.hh
index 13c9be6..8a809bb 100644
--- a/include/aleph/topology/filtrations/Degree.hh
+++ b/include/aleph/topology/filtrations/Degree.hh
@@ -41,11 +41,10 @@ template <class SimplicialComplex, class OutputIterator> void degrees( const Sim
 
   for( auto&& simplex : K )
   {
-    if( simplex.dimension() != 0 )
-    {
-      for( auto&& vertex : simplex )
-        degrees[vertex] += 1;
-    }
+    // Vertices do not count as their own co-faces, but need to be present
+    // in the map so that isolated vertices are being reported as well.
+    for( auto&& vertex : simplex )
+      degrees[vertex] += simplex.dimension() != 0 ? 1 : 0;
   }
 
   for( auto&& pair : degrees )
-- 
2.43.0


From 491155e505f49c1688b6cf352a72644e0def9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:02 +0000
Subject: [PATCH 006/148] fix: ignore indented comment lines when loading
 boundary matrices

Such lines were not counted as columns, but still parsed as one, resulting
in an exception.
---
 include/aleph/topology/BoundaryMatrix.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BoundaryMatrix.hh b/include/aleph/topology/BoundaryMatrix.hh
index 609a89b..a40f3d6 100644
--- a/include/aleph/topology/BoundaryMatrix.hh
+++ b/include/aleph/topology/BoundaryMatrix.hh
@@ -208,8 +208,9 @@ public:
                  std::istream_iterator<std::string>(),
                  std::back_inserter( tokens ) );
 
-      // Ignore this line if it does not contain any tokens
-      if( tokens.empty() )
+      // Ignore this line if it does not contain any tokens or if it is an
+      // indented comment line
+      if( tokens.empty() || tokens.front().front() == '#' )
         continue;
 
       std::vector<Index> indices;
-- 
2.43.0


From 645f3b5a34df3a4803dbb1e1a899a8fe44325ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:02 +0000
Subject: [PATCH 007/148] fix: make the heap representation of boundary
 matrices usable

Querying the maximum index tried to modify a constant heap, so that the
class could not be instantiated. Equal entries cancel each other out now
for queries, column access, and comparisons.
---
 .../aleph/topology/representations/Heap.hh    | 56 ++++++++++++++-----
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/include/aleph/topology/representations/Heap.hh b/include/aleph/topology/representations/Heap.hh
index 2548c9c..c692af1 100644
--- a/include/aleph/topology/representations/Heap.hh
+++ b/include/aleph/topology/representations/Heap.hh
@@ -32,26 +32,31 @@ public:
 
   std::pair<Index, bool> getMaximumIndex( Index column ) const
   {
-    if( _data.at( static_cast<std::size_t>( column ) ).empty() )
-      return std::make_pair( Index(0), false );
-    else
+    auto&& column_ = _data.at( static_cast<std::size_t>( column ) );
+
+    // Entries are added lazily, so the same index may be stored multiple
+    // times. Since pairs of equal entries cancel each other out, they are
+    // removed until the largest index remains on its own.
+    while( !column_.empty() )
     {
-      auto&& column_ = _data.at( static_cast<std::size_t>( column ) );
-      auto index     = column_.front();
+      auto index = column_.front();
 
       std::pop_heap( column_.begin(), column_.end() );
+      column_.pop_back();
 
-      while( !column_.empty() && column_.front() == index )
+      if( column_.empty() || column_.front() != index )
       {
-        std::pop_heap( column_.begin(), column_.end() );
-        column_.pop_back();
+        column_.push_back( index );
+        std::push_heap( column_.begin(), column_.end() );
 
-        if( column_.empty() )
-          return std::make_pair( Index(0), false );
+        return std::make_pair( index, true );
       }
 
-      return std::make_pair( index, true );
+      std::pop_heap( column_.begin(), column_.end() );
+      column_.pop_back();
     }
+
+    return std::make_pair( Index(0), false );
   }
 
   void addColumns( Index source, Index target )
@@ -87,7 +92,20 @@ public:
 
   std::vector<Index> getColumn( Index column ) const
   {
-    return _data.at( static_cast<std::size_t>( column ) );
+    auto sorted = _data.at( static_cast<std::size_t>( column ) );
+    std::sort( sorted.begin(), sorted.end() );
+
+    // Pairs of equal entries cancel each other out
+    std::vector<Index> result;
+    for( auto&& index : sorted )
+    {
+      if( !result.empty() && result.back() == index )
+        result.pop_back();
+      else
+        result.push_back( index );
+    }
+
+    return result;
   }
 
   void clearColumn( Index column )
@@ -115,11 +133,21 @@ public:
 
   bool operator==( const Heap& other ) const
   {
-    return _data == other._data && _dimensions == other._dimensions;
+    if( _dimensions != other._dimensions )
+      return false;
+
+    for( Index j = Index(0); j < this->getNumColumns(); ++j )
+    {
+      if( this->getColumn(j) != other.getColumn(j) )
+        return false;
+    }
+
+    return true;
   }
 
 private:
-  std::vector< std::vector<Index> > _data;
+  // Mutable because queries discard entries that cancel each other out
+  mutable std::vector< std::vector<Index> > _data;
   std::vector<Index> _dimensions;
 };
 
-- 
2.43.0


From bbd2e3a8a4347d5fe635a00e93f5665e4195a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:36 +0000
Subject: [PATCH 008/148] fix: propagate negative weights in Rips expansion

Expanded simplices are created with a weight of zero, which was included
in the maximum of the weights of their faces.
---
 include/aleph/geometry/RipsExpander.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/aleph/geometry/RipsExpander.hh b/include/aleph/geometry/RipsExpander.hh
index 0ef4f11..844e83b 100644
--- a/include/aleph/geometry/RipsExpander.hh
+++ b/include/aleph/geometry/RipsExpander.hh
@@ -112,16 +112,21 @@ public:
       // dimensionality requirement is not satisfied
       if( s.dimension() > minDimension )
       {
-        auto w = s.data();
+        auto w       = std::numeric_limits<DataType>::lowest();
+        bool hasFace = false;
 
         for( auto itFace = s.begin_boundary(); itFace != s.end_boundary(); ++itFace )
         {
           auto itFaceInS = S.find( *itFace );
           if( itFaceInS != S.end() )
-            w = std::max( w, itFaceInS->data() );
+          {
+            w       = std::max( w, itFaceInS->data() );
+            hasFace = true;
+          }
         }
 
-        s.setData( w );
+        if( hasFace )
+          s.setData( w );
       }
 
       S.push_back( s );
-- 
2.43.0


From 1bbae644431a3594809fe54f0d5ece59a01a3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:28 +0000
Subject: [PATCH 009/148] fix: report all distances of a FLANN radius search

The number of distances of each point was taken from the first point.
---
 include/aleph/geometry/FLANN.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/aleph/geometry/FLANN.hh b/include/aleph/geometry/FLANN.hh
index db39c67..db73af1 100644
--- a/include/aleph/geometry/FLANN.hh
+++ b/include/aleph/geometry/FLANN.hh
@@ -92,18 +92,16 @@ public:
 
     // Perform transformation of distances -----------------------------
 
-    if( internalDistances.empty() )
-      return;
-
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
+      // The number of neighbours may be different for every point
       for( size_type row = 0; row < distances.size(); row++ )
-        for( size_type col = 0; col < distances[row].size(); col++ )
-          distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+        for( auto&& distance : internalDistances[row] )
+          distances[row].push_back( static_cast<ElementType>( distance ) );
     }
 
     for( auto&& D : distances )
-- 
2.43.0


From dddca98ca954426ba23aa32e280e2d98fa730c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:28 +0000
Subject: [PATCH 010/148] fix: handle searches for more neighbours than points

The brute-force search accessed elements beyond the end of its results.
---
 include/aleph/geometry/BruteForce.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/geometry/BruteForce.hh b/include/aleph/geometry/BruteForce.hh
index 9e98504..fbf6255 100644
--- a/include/aleph/geometry/BruteForce.hh
+++ b/include/aleph/geometry/BruteForce.hh
@@ -111,6 +111,9 @@ public:
 
       std::sort( distances[i].begin(), distances[i].end() );
 
+      // There cannot be more neighbours than points
+      k = std::min( k, static_cast<unsigned>( this->size() ) );
+
       distances[i].erase( distances[i].begin() + k, distances[i].end() );
       indices[i].erase( indices[i].begin() + k, indices[i].end() );
     }
-- 
2.43.0


From 0421ea3360b63b67fd12e160cb661568532addd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:28 +0000
Subject: [PATCH 011/148] fix: use Hamming distance for partial distance
 calculations

The partial distance was the Manhattan distance, so tree-based searches
missed neighbours.
---
 include/aleph/geometry/distances/Hamming.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/distances/Hamming.hh b/include/aleph/geometry/distances/Hamming.hh
index e573386..34bcb13 100644
--- a/include/aleph/geometry/distances/Hamming.hh
+++ b/include/aleph/geometry/distances/Hamming.hh
@@ -120,7 +120,7 @@ public:
                          const V& b,
                          int __attribute__((unused)) ) const
   {
-    return std::abs( a - b );
+    return static_cast<ResultType>( a != b );
   }
 
   /** @returns Name of functor */
-- 
2.43.0


From 160f05acb81784bb09d831d4e7a55cd47a9449c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:30 +0000
Subject: [PATCH 012/148] fix: select the requested number of different max-min
 landmarks

At least one landmark was returned, and landmarks were repeated for data
sets that contain duplicate points.
---
 include/aleph/geometry/WitnessComplex.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/geometry/WitnessComplex.hh b/include/aleph/geometry/WitnessComplex.hh
index cbb4d9f..d5a0c0d 100644
--- a/include/aleph/geometry/WitnessComplex.hh
+++ b/include/aleph/geometry/WitnessComplex.hh
@@ -257,6 +257,9 @@ template <
   if( n > container.size() )
     throw std::out_of_range( "Number of landmarks is out of range" );
 
+  if( n == 0 )
+    return;
+
   using SizeType = decltype( container.size() );
 
   std::random_device rd;
@@ -280,6 +283,11 @@ template <
 
     for( SizeType i = 0; i < N; i++ )
     {
+      // Points with equal coordinates must not result in the same index
+      // being selected multiple times.
+      if( std::find( indices.begin(), indices.end(), i ) != indices.end() )
+        continue;
+
       auto min = std::numeric_limits<DataType>::max();
 
       for( auto&& landmarkIndex : indices )
-- 
2.43.0


From d1e05e13058878028a5ce0debdc8532fcc0b75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:31 +0000
Subject: [PATCH 013/148] fix: support queries for empty cover trees

All queries dereferenced the root node, even if there is none.
---
 include/aleph/geometry/CoverTree.hh | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/aleph/geometry/CoverTree.hh b/include/aleph/geometry/CoverTree.hh
index 9c82af9..5bdf027 100644
--- a/include/aleph/geometry/CoverTree.hh
+++ b/include/aleph/geometry/CoverTree.hh
@@ -291,6 +291,9 @@ public:
   // `std::ostream`.
   void print( std::ostream& o )
   {
+    if( !_root )
+      return;
+
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
 
@@ -333,6 +336,9 @@ public:
   {
     std::multimap<long, Point> levelMap;
 
+    if( !_root )
+      return levelMap;
+
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
 
@@ -369,6 +375,9 @@ public:
   {
     std::map<Point, long> levelMap;
 
+    if( !_root )
+      return levelMap;
+
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
 
@@ -397,6 +406,9 @@ public:
   {
     std::vector<Point> result;
 
+    if( !_root )
+      return result;
+
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
 
@@ -448,6 +460,9 @@ public:
 
   bool checkLevelInvariant() const noexcept
   {
+    if( !_root )
+      return true;
+
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
 
@@ -486,6 +501,9 @@ public:
 
   bool checkCoveringInvariant() const noexcept
   {
+    if( !_root )
+      return true;
+
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
 
@@ -528,6 +546,9 @@ public:
 
   bool checkSeparatingInvariant() const noexcept
   {
+    if( !_root )
+      return true;
+
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
 
-- 
2.43.0


From 357e3d082660a7749367fadd2f416b2ed28eeeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:44 +0000
Subject: [PATCH 014/148] fix: avoid integer overflow for unreachable vertices
 in Floyd-Warshall

---
 include/aleph/topology/FloydWarshall.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/FloydWarshall.hh b/include/aleph/topology/FloydWarshall.hh
index cbb9107..1d37b4c 100644
--- a/include/aleph/topology/FloydWarshall.hh
+++ b/include/aleph/topology/FloydWarshall.hh
@@ -57,7 +57,8 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
   // infinity (all others). Next, edge weights of the complex will
   // be added to the matrix.
 
-  auto n = vertex_to_index.size();
+  auto n        = vertex_to_index.size();
+  auto infinity = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
 
   Matrix M( static_cast<VertexType>( n ) );
 
@@ -65,7 +66,7 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
   {
     M(i,i) = DataType(0);
     for( auto j = i+1; j < VertexType(n); j++ )
-      M(i,j) = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+      M(i,j) = infinity;
   }
 
   for( auto&& s : K )
@@ -85,9 +86,14 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
   {
     for( VertexType i = VertexType(0); i < VertexType(n); i++ )
     {
+      // Ensures that there is no overflow for integer data types, for
+      // which the largest value plays the role of infinity.
+      if( M(i,k) == infinity )
+        continue;
+
       for( auto j = i+1; j < VertexType(n); j++ )
       {
-        if( M(i,j) > M(i,k) + M(k,j) )
+        if( M(k,j) != infinity && M(i,j) > M(i,k) + M(k,j) )
           M(i,j) = M(i,k) + M(k,j);
       }
     }
-- 
2.43.0


From 35f9b249a139322f0697013a7b5eaf444b6a5a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:44 +0000
Subject: [PATCH 015/148] fix: pass dimension of new simplices to barycentric
 subdivision functor

---
 include/aleph/topology/BarycentricSubdivision.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BarycentricSubdivision.hh b/include/aleph/topology/BarycentricSubdivision.hh
index e5a0428..df8e703 100644
--- a/include/aleph/topology/BarycentricSubdivision.hh
+++ b/include/aleph/topology/BarycentricSubdivision.hh
@@ -181,7 +181,7 @@ public:
           // The new cone simplex needs to use the same weight as the
           // barycentre simplex.
           cone.emplace_back( Simplex( vertices.begin(), vertices.end(),
-                                      s.data() * DataType( functor( vertices.size() ) ) ) );
+                                      s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
        // Cone boundaries; required in order to ensure consistency of
@@ -198,7 +198,7 @@ public:
           // the resulting simplicial complex---it will not be used by
           // any other simplex during the subdivision.
           L.push_back( Simplex( vertices.begin(), vertices.end(),
-                                s.data() * DataType( functor( vertices.size() ) ) ) );
+                                s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
         subdivision[s] = cone;
-- 
2.43.0


From 8ec11678c7b49a78b58e358ff69bb0059c3185ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:07 +0000
Subject: [PATCH 016/148] fix: connect mesh boundaries for all orders of faces

The boundary was only traversed from some of the vertices, so that there
were edges without a successor. Later faces were then not connected with
the existing edges. This already occurred when creating a tetrahedron.
---
 include/aleph/topology/Mesh.hh | 73 ++++++++++++++--------------------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8a1b4ee..d20f5e1 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -223,6 +223,9 @@ public:
         pair->pair   = edge;
         edge->pair   = pair;
 
+        _edges[ *curr ].push_back( edge );
+        _edges[ *next ].push_back( pair );
+
         if( !source->edge )
           source->edge = edge;
 
@@ -272,43 +275,31 @@ public:
 
     // Extend boundary -------------------------------------------------
     //
-    // Traverse all vertices whose paired edges have an empty face. Any
-    // of these edges is part of the boundary face.
+    // Traverse all edges that have an empty face. Any of these edges is
+    // part of a boundary face, so the boundary edge that arrives at its
+    // source vertex is its predecessor. For every face in the mesh, the
+    // number of such edges changes in the same manner for arriving, and
+    // departing edges.
 
-    for( auto&& pair : _vertices )
+    for( auto&& pair : _edges )
     {
-      auto&& vertex = pair.second;
+      HalfEdgePointer departing;
+      HalfEdgePointer arriving;
 
-      if( !vertex->edge || vertex->edge->pair->face )
-        continue;
+      for( auto&& edge : pair.second )
+      {
+        if( !edge->face )
+          departing = edge;
 
-      auto curr = vertex->edge->target();
-      auto edge = vertex->edge->pair;
+        if( !edge->pair->face )
+          arriving = edge->pair;
+      }
 
-      do
+      if( departing && arriving )
       {
-        assert( !edge->face );
-        auto edges = this->getEdges( *curr );
-
-        for( auto&& e : edges )
-        {
-          if( !e->pair->face )
-          {
-            e->pair->next = edge;
-            edge->prev    = e->pair;
-
-            edge          = e->pair;
-            curr          = e->pair->pair->target();
-            break;
-          }
-        }
+        arriving->next  = departing;
+        departing->prev = arriving;
       }
-      while( curr != vertex );
-
-      // Close the loop around the boundary face by adding a pointer to
-      // the identified edge.
-      vertex->edge->pair->next = edge;
-      edge->prev               = vertex->edge->pair;
     }
   }
 
@@ -499,21 +490,12 @@ private:
   /** Gets all edges that are incident on a given vertex. */
   std::vector<HalfEdgePointer> getEdges( const Vertex& v ) const noexcept
   {
-    std::vector<HalfEdgePointer> edges;
+    auto itEdges = _edges.find( v.id );
 
-    auto edge = v.edge;
-    do
-    {
-      if( edge )
-        edges.push_back( edge );
-      else
-        break;
-
-      edge = edge->pair->next;
-    }
-    while( edge != v.edge );
-
-    return edges;
+    if( itEdges != _edges.end() )
+      return itEdges->second;
+    else
+      return {};
   }
 
   /** Gets all faces that are incident on a given vertex */
@@ -577,6 +559,9 @@ private:
 
   Index _largestVertexID = Index();
 
+  /** Stores all edges that depart from a given vertex. */
+  std::unordered_map<Index, std::vector<HalfEdgePointer> > _edges;
+
   /**
     Stores all vertex pointers. This is sufficient to store the
     complete mesh.
-- 
2.43.0


From 4751869daca738a7142645fcb949e35f5cf2dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:07 +0000
Subject: [PATCH 017/148] fix: report all faces of a mesh

Only the face of a single edge was considered for every vertex. Moreover,
vertices without any edges resulted in an invalid memory access.
---
 include/aleph/topology/Mesh.hh | 35 ++++++++--------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index d20f5e1..10b8048 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -121,22 +121,10 @@ public:
   // TODO: Better return type?
   std::vector< std::vector<Index> > faces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
     std::vector< std::vector<Index> > results;
-    results.reserve( faces.size() );
+    results.reserve( _faces.size() );
 
-    for( auto&& face : faces )
+    for( auto&& face : _faces )
       results.push_back( face->vertices() );
 
     return results;
@@ -144,19 +132,7 @@ public:
 
   std::size_t numFaces() const noexcept
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
-    return faces.size();
+    return _faces.size();
   }
 
   // Mesh modification -------------------------------------------------
@@ -273,6 +249,8 @@ public:
       edge->prev = *prev;
     }
 
+    _faces.push_back( face );
+
     // Extend boundary -------------------------------------------------
     //
     // Traverse all edges that have an empty face. Any of these edges is
@@ -559,6 +537,9 @@ private:
 
   Index _largestVertexID = Index();
 
+  /** Stores all faces in the order in which they have been added. */
+  std::vector<FacePointer> _faces;
+
   /** Stores all edges that depart from a given vertex. */
   std::unordered_map<Index, std::vector<HalfEdgePointer> > _edges;
 
-- 
2.43.0


From ab739dc562660917b5e8177978f26c7bcf4450b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:07 +0000
Subject: [PATCH 018/148] fix: use all edges for counting connected components
 of a mesh

Only a single edge was considered for every vertex, which results in too
many components. Vertices without edges were not handled at all.
---
 include/aleph/topology/Mesh.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 10b8048..a17fd9f 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -428,13 +428,14 @@ public:
 
     for( auto&& vertex : vertices )
     {
-      auto&& v      = _vertices.at( vertex );
-      auto&& e      = v->edge;
-      auto&& source = e->source()->id;
-      auto&& target = e->target()->id;
+      for( auto&& e : this->getEdges( *_vertices.at( vertex ) ) )
+      {
+        auto&& source = e->source()->id;
+        auto&& target = e->target()->id;
 
-      // Actually, the order does not matter one bit here...
-      uf.merge( target, source );
+        // Actually, the order does not matter one bit here...
+        uf.merge( target, source );
+      }
     }
 
     std::vector<Index> roots;
-- 
2.43.0


From 8fae464578f7660c769f06f61c9a93b5db6e82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:07 +0000
Subject: [PATCH 019/148] fix: report all faces in the star of a boundary
 vertex

The traversal stopped at the first boundary edge.
---
 include/aleph/topology/Mesh.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index a17fd9f..8385243 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -485,11 +485,12 @@ private:
     auto edge = v.edge;
     do
     {
-      if( edge && edge->face )
-        faces.push_back( edge->face );
-      else
+      if( !edge )
         break;
 
+      if( edge->face )
+        faces.push_back( edge->face );
+
       edge = edge->pair->next;
     }
     while( edge != v.edge );
-- 
2.43.0


From 6d8b83c64ca2c54c02f188f0a0a7d000c988882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:07 +0000
Subject: [PATCH 020/148] fix: assign unused vertex IDs in a mesh

Adding a vertex without an ID resulted in an exception if the last vertex
had a larger ID than the number of vertices.
---
 include/aleph/topology/Mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8385243..e70aada 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -142,7 +142,7 @@ public:
   {
     Vertex v;
 
-    v.id   = id == std::numeric_limits<Index>::max() ? std::max( _vertices.size(), _largestVertexID ) : id;
+    v.id   = id == std::numeric_limits<Index>::max() ? ( _vertices.empty() ? Index() : _largestVertexID + 1 ) : id;
     v.x    = x;
     v.y    = y;
     v.z    = z;
-- 
2.43.0


From 144304daa1cddfdadfd03b42f131dafbf624a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:33 +0000
Subject: [PATCH 021/148] fix: return zero for invalid dimensions of
 perversities

The smallest dimensions resulted in an invalid memory access.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 4741198..2b73f5e 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -105,7 +105,7 @@ public:
 
   int operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 1 )
+    if( d >= 1 && d < _values.size() + 1 )
       return _values[ static_cast<std::size_t>( d-1 ) ];
     else
       return 0;
@@ -166,7 +166,7 @@ public:
 
   unsigned operator()( std::size_t d ) const noexcept
   {
-    if( d < _values.size() + 2 )
+    if( d >= 2 && d < _values.size() + 2 )
       return _values[ static_cast<std::size_t>( d-2 ) ];
     else
       return 0;
-- 
2.43.0


From c6ea45bb6658cd7fe30d82510c9e3345501b270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:51 +0000
Subject: [PATCH 022/148] fix: ensure that Goresky--MacPherson perversities
 start with zero

---
 include/aleph/persistentHomology/PhiPersistence.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 2b73f5e..784f675 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -146,6 +146,9 @@ public:
   template <class InputIterator> PerversityGM( InputIterator begin, InputIterator end )
     : _values( begin, end )
   {
+    if( !_values.empty() )
+      _values.front() = 0;
+
     for( std::size_t k = 1; k < _values.size(); k++ )
     {
       if( _values[k] != _values[k-1] && _values[k] != _values[k-1] + 1 )
-- 
2.43.0


From 6e0569027e32824720cfc90f7c613c7d72728471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:13 +0000
Subject: [PATCH 023/148] fix: support empty strata when calculating
 intersection homology

---
 include/aleph/persistentHomology/PhiPersistence.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 784f675..09efb80 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -274,7 +274,7 @@ auto calculateIntersectionHomology( const aleph::topology::SimplicialComplex<Sim
 
     for( auto&& x : X )
     {
-      if( !K.empty() )
+      if( !x.empty() )
       {
         minDimension = std::min( minDimension, x.dimension() );
         maxDimension = std::max( maxDimension, x.dimension() );
-- 
2.43.0


From b1edd640d3e6efcd85f8b46403a981b192fc393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:36 +0000
Subject: [PATCH 024/148] fix: evaluate heat kernel for all vertices

The function added values to an empty vector. It now returns the values of
the heat kernel for all pairs of vertices.
---
 include/aleph/geometry/HeatKernel.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 8b5b3bd..5041a08 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -238,14 +238,15 @@ public:
   {
 #ifdef ALEPH_WITH_EIGEN
 
-    Vector result = Vector();
+    auto n        = _eigenvectors.empty() ? IndexType() : _eigenvectors.front().size();
+    Matrix result = Matrix::Zero( n, n );
 
     for( std::size_t k = 0; k < _eigenvalues.size(); k++ )
     {
       auto&& lk  = std::exp( -t * _eigenvalues[k] );
       auto&& uk = _eigenvectors[k];
 
-      result += lk * uk * uk.transpose();
+      result += lk * uk.transpose() * uk;
     }
 
     return std::vector<T>( result.data(), result.data() + result.size() );
-- 
2.43.0


From c8b645993515c4db4f91e686a17fee45ae3454ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:36 +0000
Subject: [PATCH 025/148] fix: calculate determinant of heat kernel

The product started with zero, so the result was always zero.
---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 5041a08..67dca32 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -344,7 +344,7 @@ public:
 
   T determinant( T t) const
   {
-    T result = T();
+    T result = T(1);
 
     for( auto&& eigenvalue : _eigenvalues )
       result = result * std::exp( -t * eigenvalue );
-- 
2.43.0


From e66622128d83491a89f3468bd35be9b24131b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:36 +0000
Subject: [PATCH 026/148] fix: avoid integer division in pseudo-inverse of the
 Laplacian

---
 include/aleph/geometry/HeatKernel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/HeatKernel.hh b/include/aleph/geometry/HeatKernel.hh
index 67dca32..fb42a79 100644
--- a/include/aleph/geometry/HeatKernel.hh
+++ b/include/aleph/geometry/HeatKernel.hh
@@ -149,7 +149,7 @@ template <class SimplicialComplex> auto pinvWeightedLaplacianMatrix( const Simpl
   using Simplex   = typename SimplicialComplex::ValueType;
   using DataType  = typename Simplex::DataType;
 
-  Matrix M = Matrix::Constant( L.rows(), L.cols(), static_cast<DataType>( 1/ n ) );
+  Matrix M = Matrix::Constant( L.rows(), L.cols(), DataType(1) / static_cast<DataType>( n ) );
 
   return (M+L).inverse() - M;
 }
-- 
2.43.0


From 21f5c2584c2f1d16644b6076e88fc43f64a6c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:36 +0000
Subject: [PATCH 027/148] fix: do not consider a simplex to be its own parallel
 neighbour

The curvature of simplices without any cofaces was off by one.
---
 include/aleph/topology/CombinatorialCurvature.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 9aa199d..123d83f 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -57,7 +57,8 @@ template <class SimplicialComplex> bool parallelNeighbours( const SimplicialComp
                                                             const typename SimplicialComplex::ValueType& s,
                                                             const typename SimplicialComplex::ValueType& t )
 {
-  if( s.dimension() != t.dimension() )
+  // A simplex is not considered to be a neighbour of itself
+  if( s.dimension() != t.dimension() || s == t )
     return false;
 
   using Simplex = typename SimplicialComplex::ValueType;
-- 
2.43.0


From 0508a9df42ef0645d18cbaa8fec2776328034791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:36 +0000
Subject: [PATCH 028/148] fix: support negative curvature values for small
 vertex types

---
 include/aleph/topology/CombinatorialCurvature.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index 123d83f..d41c942 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -94,7 +94,6 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
                                                                          unsigned p = 1 )
 {
   using Simplex    = typename SimplicialComplex::ValueType;
-  using VertexType = typename Simplex::VertexType;
   auto pair        = K.range( p );
 
   for( auto&& it = pair.first; it != pair.second; ++it )
@@ -107,9 +106,9 @@ template <class SimplicialComplex, class OutputIterator> void curvature( const S
     range                      = K.range( s.dimension() );
     auto numParallelNeighbours = std::count_if( range.first, range.second, isParallelNeighbour );
 
-    *result++ = VertexType(   VertexType( numCofaces )
-                            + VertexType( s.size() )
-                            - VertexType( numParallelNeighbours ) );
+    *result++ = int(   int( numCofaces )
+                     + int( s.size() )
+                     - int( numParallelNeighbours ) );
   }
 }
 
-- 
2.43.0


From d2f591061d42fb236dfa17511b3c58e1e4170bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:30 +0000
Subject: [PATCH 029/148] fix: calculate weighted curvature with individual
 neighbours

Forman's formula sums the absolute values of the contributions of parallel
neighbours. Using the absolute value of their sum makes neighbours cancel
each other.
---
 .../aleph/topology/CombinatorialCurvature.hh  | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/CombinatorialCurvature.hh b/include/aleph/topology/CombinatorialCurvature.hh
index d41c942..3226bbd 100644
--- a/include/aleph/topology/CombinatorialCurvature.hh
+++ b/include/aleph/topology/CombinatorialCurvature.hh
@@ -203,8 +203,7 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
 
     range = K.range( s.dimension() );
 
-    std::vector<DataType> weights_commonCofaces;
-    std::vector<DataType> weights_commonFaces;
+    std::vector<DataType> weights_Neighbours;
 
     for( auto itNeighbour = range.first; itNeighbour != range.second; ++itNeighbour )
     {
@@ -215,19 +214,28 @@ template <class SimplicialComplex, class OutputIterator> void weightedCurvature(
       auto faces   = commonFaces  ( K, *itNeighbour, s );
       auto weight  = std::sqrt( s.data() * itNeighbour->data() );
 
+      std::vector<DataType> weights_commonCofaces;
+      std::vector<DataType> weights_commonFaces;
+
       for( auto&& coface : cofaces )
         weights_commonCofaces.push_back( weight / coface.data() );
 
       for( auto&& face : faces )
         weights_commonFaces.push_back( face.data() / weight );
+
+      auto s21 = aleph::math::accumulate_kahan_sorted( weights_commonCofaces.begin(), weights_commonCofaces.end(), DataType() );
+      auto s22 = aleph::math::accumulate_kahan_sorted( weights_commonFaces.begin()  , weights_commonFaces.end()  , DataType() );
+
+      // The absolute value refers to the contribution of an individual
+      // neighbour, as different neighbours must not cancel each other.
+      weights_Neighbours.push_back( std::abs( s21 - s22 ) );
     }
 
-    auto s11 = aleph::math::accumulate_kahan_sorted( weights_Cofaces.begin()      , weights_Cofaces.end()      , DataType() );
-    auto s12 = aleph::math::accumulate_kahan_sorted( weights_Faces.begin()        , weights_Faces.end()        , DataType() );
-    auto s21 = aleph::math::accumulate_kahan_sorted( weights_commonCofaces.begin(), weights_commonCofaces.end(), DataType() );
-    auto s22 = aleph::math::accumulate_kahan_sorted( weights_commonFaces.begin()  , weights_commonFaces.end()  , DataType() );
+    auto s11 = aleph::math::accumulate_kahan_sorted( weights_Cofaces.begin()   , weights_Cofaces.end()   , DataType() );
+    auto s12 = aleph::math::accumulate_kahan_sorted( weights_Faces.begin()     , weights_Faces.end()     , DataType() );
+    auto s2  = aleph::math::accumulate_kahan_sorted( weights_Neighbours.begin(), weights_Neighbours.end(), DataType() );
 
-    auto curvature = s.data() * ( (s11 + s12) - std::abs( s21 - s22 ) );
+    auto curvature = s.data() * ( (s11 + s12) - s2 );
     *result++      = curvature;
   }
 }
-- 
2.43.0


From bdf127382c4c8cea8ba4b04ea3845b02787b3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:12 +0000
Subject: [PATCH 030/148] fix: do not remove edges twice when checking matching
 cardinalities

The predicate removed the most recent edge and walked beyond the start
of the edge range if it was called for this very edge.
---
 include/aleph/persistenceDiagrams/distances/Bottleneck.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 69deecc..3b51984 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -71,7 +71,7 @@ template <class T> struct CheckMatchingCardinality
 
     // The new edge lies behind the edges that are already known, so the
     // surplus edges need to be removed.
-    else
+    else if( it2 < _last )
     {
       do
       {
-- 
2.43.0


From 156169f35a9eea4fa112e7a16e8ba5682b1468ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:12 +0000
Subject: [PATCH 031/148] fix: support empty persistence diagrams for the
 Bottleneck distance

---
 include/aleph/persistenceDiagrams/distances/Bottleneck.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 3b51984..9141076 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -132,6 +132,9 @@ template <
   auto m           = D2.size();
   auto maximumSize = n + m;
 
+  if( maximumSize == 0 )
+    return DataType();
+
   using SizeType = decltype(n);
   using Edge     = detail::Edge<DataType>;
 
-- 
2.43.0


From 6e0807cb3528ed1ba06bc61f9a742acfeed83a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:37 +0000
Subject: [PATCH 032/148] fix: calculate Bottleneck distance if the second
 diagram is larger

Without a perfect matching in the graph, the binary search ended behind
the last edge, which was then accessed. The distance is symmetric, so it
is sufficient to swap the diagrams.
---
 include/aleph/persistenceDiagrams/distances/Bottleneck.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 9141076..b98a35f 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -128,6 +128,11 @@ template <
 > DataType bottleneckDistance( const PersistenceDiagram<DataType>& D1,
                                const PersistenceDiagram<DataType>& D2 )
 {
+  // The graph that is constructed below only permits a perfect matching
+  // if the first diagram is at least as large as the second diagram.
+  if( D1.size() < D2.size() )
+    return bottleneckDistance<DataType, Distance>( D2, D1 );
+
   auto n           = D1.size();
   auto m           = D2.size();
   auto maximumSize = n + m;
-- 
2.43.0


From e1d6008d317ee6244edc31322ac4099e6adbb601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:37 +0000
Subject: [PATCH 033/148] fix: keep parallel edges when checking matching
 cardinalities

Removing an edge from the graph removed all of its parallel edges, even
the ones with smaller weights.
---
 .../persistenceDiagrams/distances/Bottleneck.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index b98a35f..11b45f8 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -47,6 +47,7 @@ template <class T> struct CheckMatchingCardinality
 
   CheckMatchingCardinality( std::size_t size, typename std::vector<Edge<T> >::const_iterator begin )
     : _maximumSize( size )
+    , _begin( begin )
     , _last( begin )
     , _graph( 2 * size )
     , _mates( 2 * size )
@@ -70,15 +71,16 @@ template <class T> struct CheckMatchingCardinality
     }
 
     // The new edge lies behind the edges that are already known, so the
-    // surplus edges need to be removed.
+    // graph needs to be re-created. Removing the surplus edges would not
+    // be correct because this affects all of their parallel edges.
     else if( it2 < _last )
     {
-      do
-      {
-        boost::remove_edge( _last->source, _last->target, _graph );
-        --_last;
-      }
-      while( _last != it2 );
+      _graph = GraphType( 2 * _maximumSize );
+
+      for( _last = _begin; _last != it2; ++_last )
+        boost::add_edge( _last->source, _last->target, _graph );
+
+      boost::add_edge( _last->source, _last->target, _graph );
     }
 
     boost::edmonds_maximum_cardinality_matching( _graph,
@@ -92,6 +94,7 @@ template <class T> struct CheckMatchingCardinality
 
   std::size_t _maximumSize;
 
+  typename std::vector<Edge<T> >::const_iterator _begin;
   typename std::vector<Edge<T> >::const_iterator _last;
 
   GraphType          _graph; // Input data
-- 
2.43.0


From 2933e86ffd89ce0b9f85ed20fdc6c37e0cf8bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 034/148] fix: calculate persistent entropy for points of zero
 persistence

A point on the diagonal made the persistent entropy of the whole diagram
NaN because the logarithm of zero was used.
---
 include/aleph/persistenceDiagrams/Entropy.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index e9f5193..a63cabf 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -176,8 +176,8 @@ template <class T> T persistentEntropy( const aleph::PersistenceDiagram<T>& D )
                   std::back_inserter( probabilities ),
                   [&totalPersistence] ( T persistence )
                   {
-                    auto p = persistence / totalPersistence;
-                    return p * std::log2( p );
+                    auto p = totalPersistence != T() ? persistence / totalPersistence : T();
+                    return p * detail::log2( p );
                   } );
 
   return -aleph::math::accumulate_kahan_sorted( probabilities.begin(),
-- 
2.43.0


From 0aa822b9fa1ecd28750b918ac8733812ceb26e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 035/148] fix: handle degenerate extents in the regular grid
 for entropies

If all points have the same coordinate, the grid has an extent of zero and
the cell index was calculated by converting NaN to an integer.
---
 include/aleph/persistenceDiagrams/Entropy.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index a63cabf..26355cb 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -110,8 +110,8 @@ public:
     x = x - _x0;
     y = y - _y0;
 
-    unsigned i = unsigned( x / _xOffset );
-    unsigned j = unsigned( y / _yOffset );
+    unsigned i = _xOffset > T() ? unsigned( x / _xOffset ) : 0;
+    unsigned j = _yOffset > T() ? unsigned( y / _yOffset ) : 0;
 
     return this->operator()(i,j);
   }
-- 
2.43.0


From e497eaab8f2ea5b6a3f502121b50d900a642569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 036/148] fix: do not read past the last point when calculating
 an envelope

---
 include/aleph/persistenceDiagrams/Envelope.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Envelope.hh b/include/aleph/persistenceDiagrams/Envelope.hh
index a505bb2..64916eb 100644
--- a/include/aleph/persistenceDiagrams/Envelope.hh
+++ b/include/aleph/persistenceDiagrams/Envelope.hh
@@ -82,7 +82,7 @@ public:
     for( auto&& x : X )
     {
       auto next = std::next( it );
-      while( next->x() == x )
+      while( next != P.end() && next->x() == x )
       {
         ++next;
         ++it;
-- 
2.43.0


From c579549118c2bff24b6bd2be88950826604a15f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:49 +0000
Subject: [PATCH 037/148] fix: do not add interval before the first point of an
 indicator function

If the smallest value of a persistence diagram is both a creator and
a destroyer, an interval starting at zero was added to the function.
---
 .../aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
index b1bc30b..7909fe4 100644
--- a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
+++ b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
@@ -156,7 +156,9 @@ template <class DataType> aleph::math::StepFunction<DataType> persistenceIndicat
     // implied by the values.
     else
     {
-      f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+      if( i != 0 )
+        f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+
       useNextPoint = true;
     }
 
-- 
2.43.0


From 27cf1c701f78b45dd2b6842782a2dc51675e0792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:32 +0000
Subject: [PATCH 038/148] fix: do not recurse endlessly when dividing an
 indicator function

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 01a2674..0eb18a5 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -146,7 +146,7 @@ public:
     {
       // Note that I do not have to handle divisions by zero here
       // because only the step function is using this class.
-      return this->operator/=( 1/lambda );
+      return this->operator*=( 1/lambda );
     }
 
     IndicatorFunction operator/( I lambda ) const
-- 
2.43.0


From edd059d418a5ea0aac12fa80a9c1cc42be2ac172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:32 +0000
Subject: [PATCH 039/148] fix: use largest absolute value of overlapping step
 function intervals

A negative value was replaced by any other value, regardless of its size.
---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 0eb18a5..32b2320 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -216,7 +216,7 @@ public:
 
       // If multiple indicator functions overlap, take the one whose
       // absolute value is largest.
-      if( std::abs( f(x) ) > value )
+      if( std::abs( f(x) ) > std::abs( value ) )
         value = f(x);
     }
 
-- 
2.43.0


From eac4763826a7750ef89a648c378a18a132e56011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:32 +0000
Subject: [PATCH 040/148] fix: check for the last interval before accessing it
 in a step function

---
 include/aleph/math/StepFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 32b2320..6d11152 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -486,7 +486,7 @@ private:
 
     for( ; curr != _indicatorFunctions.end(); )
     {
-      while( curr->y() == prev->y() && curr != _indicatorFunctions.end() )
+      while( curr != _indicatorFunctions.end() && curr->y() == prev->y() )
         ++curr;
 
       indicatorFunctions.insert( IndicatorFunction( prev->a(), std::prev( curr )->b(), prev->y() ) );
-- 
2.43.0


From c88f3580bdff482010c2d2b16cf1d09f765c99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:49 +0000
Subject: [PATCH 041/148] fix: do not create invalid intervals when adding sums
 of step functions

The sum of step functions contains very small intervals. Adding another
function to such a sum resulted in an exception in a noexcept function.
---
 include/aleph/math/StepFunction.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 6d11152..60316af 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -266,6 +266,11 @@ public:
     {
       curr    = *it;
 
+      // This point is already part of the previous interval, which extends
+      // beyond its end point.
+      if( curr <= prev )
+        continue;
+
       auto y1 = f( prev );
       auto y2 = g( prev );
       auto y3 = f( curr );
-- 
2.43.0


From 55138a5abe995498d05548bc47d1b5dd638bc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:49 +0000
Subject: [PATCH 042/148] fix: make scalar operators of piecewise linear
 functions usable

The operators modify the function, so they did not compile as constant
member functions.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 110e41e..12bf26b 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -143,7 +143,7 @@ public:
   }
 
   /** Adds a given value to all points in the image of the function */
-  PiecewiseLinearFunction& operator+=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator+=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::plus<Image>() );
   }
@@ -181,7 +181,7 @@ public:
   }
 
   /** Subtracts a given value from all points in the image of the function */
-  PiecewiseLinearFunction& operator-=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator-=( Image lambda ) noexcept
   {
     return this->apply( lambda, std::minus<Image>() );
   }
-- 
2.43.0


From 6f300fcd48ddf2d57d3a8fb10df8a893048a6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:49 +0000
Subject: [PATCH 043/148] fix: permit dividing a piecewise linear function by
 zero to throw

The exception terminated the program because of the noexcept specifier.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 12bf26b..0fced6c 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -213,7 +213,7 @@ public:
   }
 
   /** Divides the given step function by a scalar value */
-  PiecewiseLinearFunction operator/( I lambda ) const noexcept
+  PiecewiseLinearFunction operator/( I lambda ) const
   {
     auto f = *this;
     f /= lambda;
-- 
2.43.0


From afac367874c3de0a4652db6e7b7953c0291af636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:49 +0000
Subject: [PATCH 044/148] fix: calculate absolute value of segments that
 intersect the x-axis

Arithmetical operations may result in such segments. Their absolute value
was obtained from the values at their end points only.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 0fced6c..fa3a35d 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -280,6 +280,11 @@ public:
   /** Calculates the absolute value of the function */
   PiecewiseLinearFunction& abs() noexcept
   {
+    // The absolute value of a segment is only linear if the segment does
+    // not intersect the x-axis.
+    if( !_data.empty() )
+      this->insertIntersectionPoints();
+
     for( auto&& pair : _data )
       pair.second = std::abs( pair.second );
 
-- 
2.43.0


From 20485efbb13a25637de6cfc1dba459477fe18fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:49 +0000
Subject: [PATCH 045/148] fix: integrate segments that intersect the x-axis

The positive and the negative part of a segment cancelled each other out if
the segment was the result of an arithmetical operation.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index fa3a35d..c39396b 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -325,10 +325,15 @@ public:
     // not disappear amidst the remaining values.
     KahanSummation<Image> norm = Image();
 
-    auto previous = _data.begin();
-    auto current  = std::next( _data.begin() );
+    // Arithmetical operations may have resulted in segments that intersect
+    // the x-axis. These segments have to be subdivided first.
+    auto f = *this;
+    f.insertIntersectionPoints();
+
+    auto previous = f._data.begin();
+    auto current  = std::next( f._data.begin() );
 
-    while( current != _data.end() )
+    while( current != f._data.end() )
     {
       // Coefficients of the line that connect the previous point and the current
       // point.
-- 
2.43.0


From a7c00bb766bf8a79a49e199ecb6c6d1ac4c1f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:46 +0000
Subject: [PATCH 046/148] fix: integrate almost horizontal segments in a stable
 manner

The sum of two functions may contain segments whose slope is not exactly
zero because of rounding errors. Their integral was wrong by large amounts
because the slope is used as a divisor.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index c39396b..ead95a4 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -344,6 +344,14 @@ public:
       auto m  = (y2 - y1) / (x2 - x1);
       auto c  = y1 - m * x1;
 
+      // The quadrature formula for regular lines is not numerically stable
+      // if the slope is very small.
+      if( std::abs( y2 - y1 ) <= std::cbrt( std::numeric_limits<Image>::epsilon() ) * std::max( std::abs( y1 ), std::abs( y2 ) ) )
+      {
+        m = Image();
+        c = ( y1 + y2 ) / 2;
+      }
+
       // Evaluator for the integral. This is an application of Cavalieri's
       // quadrature formula.
       auto evaluator = [&]( Image x )
-- 
2.43.0


From 1ef4809b144a8578ea572a971948461840534fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:04 +0000
Subject: [PATCH 047/148] fix: use both diagrams for the kernel embedding
 pseudo-metric

All three terms of the pseudo-metric used the kernel between the two
diagrams, so the pseudo-metric was always zero.
---
 .../aleph/persistenceDiagrams/kernels/KernelEmbedding.hh  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index b9f2ee0..0b509a6 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -128,11 +128,13 @@ double pseudoMetric( const PersistenceDiagram<T>& D,
                      Weight w,
                      Kernel k )
 {
-  auto kxx = linearKernel(D, E, w, k);
+  auto kxx = linearKernel(D, D, w, k);
   auto kxy = linearKernel(D, E, w, k);
-  auto kyy = linearKernel(D, E, w, k);
+  auto kyy = linearKernel(E, E, w, k);
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // The difference may be slightly negative because of rounding errors if
+  // the diagrams are (almost) equal.
+  return std::sqrt( std::max( kxx + kyy - 2*kxy, 0.0 ) );
 }
 
 /**
-- 
2.43.0


From e05d8b62ec2d9f00f1f6052e81bbe94ae45283cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:04 +0000
Subject: [PATCH 048/148] fix: use squared pseudo-metric for the
 persistence-weighted Gaussian kernel

This is the definition in the original paper. The kernel is not guaranteed to
be a Gaussian one otherwise.
---
 include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
index 0b509a6..9792e82 100644
--- a/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
+++ b/include/aleph/persistenceDiagrams/kernels/KernelEmbedding.hh
@@ -172,7 +172,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
                        double tau )
 {
   auto d = pseudoMetric(D, E, w, k);
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 /**
@@ -200,7 +200,7 @@ double gaussianKernel( const PersistenceDiagram<T>& D,
   auto k = detail::DefaultKernel( sigma );
   auto d = pseudoMetric(D, E, w, k);
 
-  return std::exp( -1/(2*tau*tau) * d );
+  return std::exp( -1/(2*tau*tau) * d*d );
 }
 
 
-- 
2.43.0


From 118e79cd87250e38894850067c2098b1ae9d258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:26 +0000
Subject: [PATCH 049/148] fix: do not return NaN for the multi-scale
 pseudo-metric

The difference of the kernel values may be slightly negative because of
rounding errors if the diagrams are almost equal.
---
 include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
index b068581..10e8029 100644
--- a/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
+++ b/include/aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh
@@ -120,7 +120,9 @@ template <class T> double multiScalePseudoMetric( const PersistenceDiagram<T>& D
   auto kxy = multiScaleKernel( D1, D2, sigma );
   auto kyy = multiScaleKernel( D2, D2, sigma );
 
-  return std::sqrt( kxx + kyy - 2*kxy );
+  // The difference may be slightly negative because of rounding errors if
+  // the diagrams are (almost) equal.
+  return std::sqrt( std::max( kxx + kyy - 2*kxy, 0.0 ) );
 }
 
 } // namespace aleph
-- 
2.43.0


From 5fcf31833a43c2ca494e7554f7b37b223968d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:09 +0000
Subject: [PATCH 050/148] fix: calculate means of persistence diagrams of
 non-zero dimension

The dimension was not set for the intermediate diagrams, so comparing them
with the input diagrams resulted in an exception.
---
 include/aleph/persistenceDiagrams/Mean.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index 7c9cc38..0f597a9 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -210,6 +210,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
   while( !stop )
   {
     PersistenceDiagram Z;
+    Z.setDimension( Y.dimension() );
 
     auto k = Y.size();
     for( decltype(k) i = 0; i < k; i++ )
-- 
2.43.0


From 512915715bcaefcf49c0a7615818cd04be0e947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:45 +0000
Subject: [PATCH 051/148] fix: report invalid JSON files instead of aborting

If the input cannot be parsed, the document must not be accessed.
---
 include/aleph/persistenceDiagrams/io/JSON.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/persistenceDiagrams/io/JSON.hh b/include/aleph/persistenceDiagrams/io/JSON.hh
index 2065ec0..19de0dc 100644
--- a/include/aleph/persistenceDiagrams/io/JSON.hh
+++ b/include/aleph/persistenceDiagrams/io/JSON.hh
@@ -116,6 +116,9 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
 
   std::vector<PersistenceDiagram> persistenceDiagrams;
 
+  if( document.HasParseError() || !document.IsObject() )
+    throw std::runtime_error( "Unable to parse input data" );
+
   if( !document.HasMember( "diagrams" ) )
     throw std::runtime_error( "Unable to find array of persistence diagrams" );
 
-- 
2.43.0


From 4fbbea448a0a8b5678766ede0d3f788e450b945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:04 +0000
Subject: [PATCH 052/148] fix: do not block when checking the existence of a
 named pipe

---
 include/aleph/utilities/Filesystem.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/utilities/Filesystem.hh b/include/aleph/utilities/Filesystem.hh
index 4cf9486..9773358 100644
--- a/include/aleph/utilities/Filesystem.hh
+++ b/include/aleph/utilities/Filesystem.hh
@@ -122,6 +122,7 @@ bool exists( const std::string& path )
   return    isDirectory( path )
          || isRegularFile( path )
          || isSocket( path )
+         || fileType( path ) == FileType::NamedPipe // opening a pipe blocks
          || ( std::ifstream( path ) ); // fall-back in case no other queries are available;
                                        // we just try to open the file instead
 }
-- 
2.43.0


From 81a1cbea072a9a6f07d33c66e26fb55c919e1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:04 +0000
Subject: [PATCH 053/148] fix: format numbers with a maximum of zero

The logarithm of zero is not finite and cannot be converted to an integer.
---
 include/aleph/utilities/Format.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/utilities/Format.hh b/include/aleph/utilities/Format.hh
index 34b8ea0..d55919c 100644
--- a/include/aleph/utilities/Format.hh
+++ b/include/aleph/utilities/Format.hh
@@ -24,7 +24,7 @@ namespace utilities
 
 template <class T> std::string format( T n, T N, char fill = '0' )
 {
-  int width = static_cast<int>(std::log10( N ) + 1);
+  int width = N > T() ? static_cast<int>(std::log10( N ) + 1) : 1;
 
   std::ostringstream stream;
   stream << std::setw( width ) << std::setfill( fill ) << n;
-- 
2.43.0


From 3b36a991df894ca6ccf6bf58089212670340db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:28 +0000
Subject: [PATCH 054/148] fix: do not access elements of an empty range in
 reversible circular permutations

---
 include/aleph/math/Combinations.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/Combinations.hh b/include/aleph/math/Combinations.hh
index 60a28b9..0aa20b5 100644
--- a/include/aleph/math/Combinations.hh
+++ b/include/aleph/math/Combinations.hh
@@ -934,7 +934,7 @@ public:
     bool
     operator()(BidirIter first, BidirIter last)
     {
-        if (s_ == 1)
+        if (s_ <= 1)
             return f_(first, last);
         typedef typename std::iterator_traits<BidirIter>::difference_type D;
         typedef bound_range<Function, BidirIter> BoundFunc;
-- 
2.43.0


From 9fc0bfae89145fc1f14e81d5596f6666ce5db5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:28 +0000
Subject: [PATCH 055/148] fix: report copies of an empty symmetric matrix as
 being empty

---
 include/aleph/math/SymmetricMatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/SymmetricMatrix.hh b/include/aleph/math/SymmetricMatrix.hh
index 4df3104..e88ab97 100644
--- a/include/aleph/math/SymmetricMatrix.hh
+++ b/include/aleph/math/SymmetricMatrix.hh
@@ -138,7 +138,7 @@ public:
   /** Checks whether the matrix is empty */
   bool empty() const noexcept
   {
-    return _numRows == 0 && _size == 0 && _data == nullptr;
+    return _numRows == 0 && _size == 0;
   }
 
 private:
-- 
2.43.0


From 7866f3e2c5dfc30e5e90549d8ed297264d34a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:28 +0000
Subject: [PATCH 056/148] fix: scale the compensation term of a Kahan sum along
 with the sum

---
 include/aleph/math/KahanSummation.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/math/KahanSummation.hh b/include/aleph/math/KahanSummation.hh
index a94e46c..dd800aa 100644
--- a/include/aleph/math/KahanSummation.hh
+++ b/include/aleph/math/KahanSummation.hh
@@ -40,12 +40,14 @@ public:
   KahanSummation& operator*= ( T v )
   {
     _sum *= v;
+    _c   *= v;
     return *this;
   }
 
   KahanSummation& operator/= ( T v )
   {
     _sum /= v;
+    _c   /= v;
     return *this;
   }
 
-- 
2.43.0


From f398410a97d11d1122cca1fbf8febeb774f85c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:03 +0000
Subject: [PATCH 057/148] fix: make the Euclidean norm usable for kernel
 density estimation

The norm of a vector was supposed to be a vector again, so the functor could
not be compiled for any type.
---
 include/aleph/math/KernelDensityEstimator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/KernelDensityEstimator.hh b/include/aleph/math/KernelDensityEstimator.hh
index 4ce6321..9067ddc 100644
--- a/include/aleph/math/KernelDensityEstimator.hh
+++ b/include/aleph/math/KernelDensityEstimator.hh
@@ -93,12 +93,12 @@ public:
 class Euclidean
 {
 public:
-  template <class T> T operator()( T value ) const
+  template <class T> typename T::value_type operator()( const T& value ) const
   {
     auto squaredNorm
       = std::inner_product( std::begin( value ), std::end( value ),
                             std::begin( value ),
-                            T() );
+                            typename T::value_type() );
 
     return std::sqrt( squaredNorm );
   }
-- 
2.43.0


From f87189248eea09b403947c24f232dc83f7b4eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:03 +0000
Subject: [PATCH 058/148] fix: use correct sign for the centre of an algebraic
 sphere

The coefficients of (x-c)^2 = r^2 are (c^2-r^2, -2c, 1).
---
 include/aleph/math/AlgebraicSphere.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/AlgebraicSphere.hh b/include/aleph/math/AlgebraicSphere.hh
index c60607e..fb6d733 100644
--- a/include/aleph/math/AlgebraicSphere.hh
+++ b/include/aleph/math/AlgebraicSphere.hh
@@ -51,7 +51,7 @@ public:
       std::transform( c.begin(), c.end(), c.begin(),
         [&s] ( T x )
         {
-          return x / (2*s);
+          return -x / (2*s);
         }
       );
 
-- 
2.43.0


From ba7ff823d873d4dcdd1f60e596267f1e41cd527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:03 +0000
Subject: [PATCH 059/148] fix: add missing include for quantiles

---
 include/aleph/math/Quantiles.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/math/Quantiles.hh b/include/aleph/math/Quantiles.hh
index af80183..bbda0e6 100644
--- a/include/aleph/math/Quantiles.hh
+++ b/include/aleph/math/Quantiles.hh
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <vector>
 
 namespace aleph
 {
-- 
2.43.0


From 2c82680fb7511a280d9ecf3002838747d5975a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 060/148] fix: read negative numbers and exponents in GML files

The expression for values did not permit any signs, so a negative weight, for
example, was silently replaced by zero.
---
 include/aleph/topology/io/GML.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 0938c24..590ddd7 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -140,7 +140,7 @@ public:
     Edge edge;
 
     std::regex reAttribute = std::regex( "([_\\|[:alpha:]]+)[[:space:]]*.*" );
-    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.]+)" );
+    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.+\\-]+)" );
     std::regex reLabel     = std::regex( "(label)[[:space:]]+\"([^\"]+)\"" );
 
     while( std::getline( in, line ) )
-- 
2.43.0


From 27df1d2515058034d290c04e477446f259e876ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 061/148] fix: do not truncate GML attribute names that contain
 digits

An attribute such as 'weight2' was mistaken for 'weight' and overwrote it with
an empty value.
---
 include/aleph/topology/io/GML.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 590ddd7..474144b 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -139,8 +139,8 @@ public:
     Node node;
     Edge edge;
 
-    std::regex reAttribute = std::regex( "([_\\|[:alpha:]]+)[[:space:]]*.*" );
-    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.+\\-]+)" );
+    std::regex reAttribute = std::regex( "([_\\|[:alpha:]][_\\|[:alnum:]]*)[[:space:]]*.*" );
+    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]][_\\|[:alnum:]]*)[[:space:]]+([[:alnum:]\\.+\\-]+)" );
     std::regex reLabel     = std::regex( "(label)[[:space:]]+\"([^\"]+)\"" );
 
     while( std::getline( in, line ) )
-- 
2.43.0


From 37ec600c036cd65c3195a537c8022fbed9b3513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 062/148] fix: permit empty lines and comments at the beginning
 of GML files

---
 include/aleph/topology/io/GML.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 474144b..469fd3e 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -148,6 +148,11 @@ public:
       line        = trim( line );
       auto tokens = split( line );
 
+      // Skip empty lines, as well as comment lines according to the GML
+      // specification.
+      if( line.empty() || line.front() == '#' )
+        continue;
+
       // Skip comment lines. This is somewhat wasteful because I am
       // splitting the complete string even though I merely need to
       // know the first token.
-- 
2.43.0


From 742ce96e63580e87ee67129760fe382fc1c04700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 063/148] fix: report unmatched closing brackets in GML files

---
 include/aleph/topology/io/GML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 469fd3e..869d335 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -192,6 +192,9 @@ public:
       // Closing a new level
       else if( line == "]" )
       {
+        if( currentLevel.empty() )
+          throw std::runtime_error( "Encountered closing bracket without matching opening bracket" );
+
         if( currentLevel.top() == "node" )
           _nodes.push_back( node );
         else if( currentLevel.top() == "edge" )
-- 
2.43.0


From 95b85f4f9293b1ec99abf2d95bac3476e6ec6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 064/148] fix: report edges of unknown nodes in GML files

Such edges were assigned to arbitrary vertices.
---
 include/aleph/topology/io/GML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 869d335..ef43270 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -300,6 +300,9 @@ public:
 
     for( auto&& edge : _edges )
     {
+      if( nodeIDs.find( edge.source ) == nodeIDs.end() || nodeIDs.find( edge.target ) == nodeIDs.end() )
+        throw std::runtime_error( "Edge refers to an unknown node" );
+
       auto u = static_cast<VertexType>( getID( nodeIDs, edge.source ) );
       auto v = static_cast<VertexType>( getID( nodeIDs, edge.target ) );
 
-- 
2.43.0


From f2609ee1336a0a5fdc41f7a4fef727f2e4344524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 065/148] fix: assign different vertices to different node IDs
 in GML files

IDs that merely start with a digit, or a mixture of numerical IDs and other
IDs, resulted in several nodes being assigned to the same vertex.
---
 include/aleph/topology/io/GML.hh | 36 +++++++++++++++++---------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index ef43270..1e96bf9 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -1,6 +1,7 @@
 #ifndef ALEPH_TOPOLOGY_IO_GML_HH__
 #define ALEPH_TOPOLOGY_IO_GML_HH__
 
+#include <algorithm>
 #include <fstream>
 #include <map>
 #include <set>
@@ -275,6 +276,10 @@ public:
         throw std::runtime_error( "Duplicate node id '" + node.id + "'" );
     }
 
+    // Numerical IDs can only be used as-is if there are no other IDs. Else,
+    // they might coincide with the index of another ID.
+    bool numericalIDs = std::all_of( nodeIDs.begin(), nodeIDs.end(), isNumerical );
+
     std::vector<Simplex> simplices;
     simplices.reserve( _nodes.size() + _edges.size() );
 
@@ -284,7 +289,7 @@ public:
 
     for( auto&& node : _nodes )
     {
-      auto id = static_cast<VertexType>( getID( nodeIDs, node.id ) );
+      auto id = static_cast<VertexType>( getID( nodeIDs, node.id, numericalIDs ) );
 
       if( node.dict.find( "weight" ) != node.dict.end() )
         simplices.push_back( Simplex( id, convert<DataType>( node.dict.at( "weight" ) ) ) );
@@ -303,8 +308,8 @@ public:
       if( nodeIDs.find( edge.source ) == nodeIDs.end() || nodeIDs.find( edge.target ) == nodeIDs.end() )
         throw std::runtime_error( "Edge refers to an unknown node" );
 
-      auto u = static_cast<VertexType>( getID( nodeIDs, edge.source ) );
-      auto v = static_cast<VertexType>( getID( nodeIDs, edge.target ) );
+      auto u = static_cast<VertexType>( getID( nodeIDs, edge.source, numericalIDs ) );
+      auto v = static_cast<VertexType>( getID( nodeIDs, edge.target, numericalIDs ) );
 
       // No optional data attached; need to create weight based on node
       // weights, if those are available.
@@ -440,25 +445,22 @@ private:
     however, numerical IDs are being used, they are converted as-is.
   */
 
-  static std::size_t getID( const std::set<std::string>& ids, const std::string& id )
+  static std::size_t getID( const std::set<std::string>& ids, const std::string& id, bool numericalIDs )
   {
-    // Try to be smart: If the node ID can be converted into the
+    // Try to be smart: If all node IDs can be converted into the
     // vertex type, we use the converted number instead.
-    try
-    {
-      auto convertedID = std::stoll( id );
-      return static_cast<std::size_t>( convertedID );
-    }
-    catch( std::out_of_range& e )
-    {
-      throw;
-    }
-    catch( std::invalid_argument& )
-    {
+    if( numericalIDs )
+      return static_cast<std::size_t>( std::stoll( id ) );
+    else
       return static_cast<std::size_t>( std::distance( ids.begin(), ids.find( id ) ) );
-    }
   };
 
+  /** Checks whether an ID only consists of digits */
+  static bool isNumerical( const std::string& id )
+  {
+    return !id.empty() && id.find_first_not_of( "0123456789" ) == std::string::npos;
+  }
+
   /** Describes a parsed graph along with all of its attributes */
   struct Graph
   {
-- 
2.43.0


From a4bd099a7a79804f4dcd0bbcedf18ad9e5b83bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 066/148] fix: use order of vertices for indices of GML nodes

Indices of numerical IDs were assigned lexicographically, so labels did not
match the vertices of graphs with more than ten nodes.
---
 include/aleph/topology/io/GML.hh | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 1e96bf9..f515775 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -424,7 +424,18 @@ public:
 
   template <class VertexType> std::map<std::string, VertexType> id_to_index() const noexcept
   {
-    std::set<std::string> nodeIDs;
+    // Numerical IDs are used as-is, so they have to be compared by their
+    // value in order to follow the order of vertices.
+    bool numericalIDs = std::all_of( _nodes.begin(), _nodes.end(), [] ( const Node& node ) { return isNumerical( node.id ); } );
+    auto compare      = [&numericalIDs] ( const std::string& u, const std::string& v )
+    {
+      if( numericalIDs && u.size() != v.size() )
+        return u.size() < v.size();
+      else
+        return u < v;
+    };
+
+    std::set<std::string, decltype(compare)> nodeIDs( compare );
     for( auto&& node : _nodes )
       nodeIDs.insert( node.id );
 
-- 
2.43.0


From 173b9e58ab6c4a18d5bee5c74a74ef341e8b2738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 067/148] fix: skip empty lines in Pajek files

---
 include/aleph/topology/io/Pajek.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index cb1d624..b388ae8 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -72,8 +72,8 @@ public:
       // white space characters in order to simplify parsing.
       line = trim( line );
 
-      // Skip comments
-      if( line.front() == '%' )
+      // Skip empty lines and comments
+      if( line.empty() || line.front() == '%' )
         continue;
 
       // 1st case: Found a keyword. This changes the parser mode and
-- 
2.43.0


From 9c036c20754d2a60f6542594f90394c5267bd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:00 +0000
Subject: [PATCH 068/148] fix: read negative weights and exponents in Pajek
 files

---
 include/aleph/topology/io/Pajek.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index b388ae8..d40420c 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -56,7 +56,7 @@ public:
     std::regex reKeyword  = std::regex( "\\*([[:alpha:]]+).*" );
     std::regex reKeyValue = std::regex( "\\*([[:alpha:]]+)[[:space:]]+([[:digit:]]+)" );
     std::regex reVertex   = std::regex( "([[:digit:]]+)[[:space:]]+\"(.*)\"");
-    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([[:digit:]\\.]+)*");
+    std::regex reEdge     = std::regex( "([[:digit:]]+)[[:space:]]+([[:digit:]]+)[[:space:]]*([[:digit:]\\.eE+\\-]+)?");
 
     std::smatch matches;
 
-- 
2.43.0


From 5d41c27edfcf17385692cff824ef1e4bed3d19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 069/148] fix: do not mistake unknown sections of Pajek files
 for edges

---
 include/aleph/topology/io/Pajek.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index d40420c..9b4fea5 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -95,6 +95,8 @@ public:
         }
         else if( name == "edges" || name == "arcs" )
           mode = Mode::Edges;
+        else
+          mode = Mode::Unspecified;
       }
 
       // 2nd case: Proceed according to parser mode: vertices
-- 
2.43.0


From 27080861cdecc9245b98cae15960f6f6bb3cbc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 070/148] fix: create vertices of Pajek files without edges

---
 include/aleph/topology/io/Pajek.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index 9b4fea5..e5caee9 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -162,6 +162,14 @@ public:
       }
     }
 
+    // Vertices without labels need to be created even if the graph does
+    // not contain any edges.
+    if( simplices.empty() )
+    {
+      for( std::size_t i = 0; i < numVertices; i++ )
+        simplices.push_back( Simplex( VertexType(i+1) ) );
+    }
+
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-- 
2.43.0


From ecafee3a560611973e52aa729c61e691eeff9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 071/148] fix: do not reuse node labels of previous edge lists

Labels of another file were kept, but new labels were assigned to the same
vertices.
---
 include/aleph/topology/io/EdgeLists.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/topology/io/EdgeLists.hh b/include/aleph/topology/io/EdgeLists.hh
index 6a1e471..7c621c7 100644
--- a/include/aleph/topology/io/EdgeLists.hh
+++ b/include/aleph/topology/io/EdgeLists.hh
@@ -69,6 +69,8 @@ public:
 
     std::size_t lastID = 0;
 
+    _nodeLabels.clear();
+
     while( in )
     {
       std::getline( in, line );
-- 
2.43.0


From 4d46b5b8867639a58288ee1576ea41663ad1ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 072/148] fix: report missing and invalid GraphML files

This used to result in an invalid memory access. Moreover, files without XML
declaration are supported as well.
---
 include/aleph/topology/io/GraphML.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 0225221..5ac20ab 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -11,7 +11,10 @@
 
 #include <algorithm>
 #include <map>
+#include <set>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 namespace aleph
 {
@@ -99,8 +102,12 @@ public:
       XMLDocument document;
       document.LoadFile( filename.c_str() );
 
-      auto root        = document.FirstChild();
-      auto graphml     = root->NextSiblingElement( "graphml" );
+      if( document.Error() )
+        throw std::runtime_error( "Unable to parse input file" );
+
+      auto graphml = document.FirstChildElement( "graphml" );
+      if( !graphml )
+        throw std::runtime_error( "Unable to find GraphML element" );
 
       // 1. Read optional information about keys in the graph ----------
 
-- 
2.43.0


From 9fb602336447180c26f2659022c5d2b6994131e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 073/148] fix: support empty data elements in GraphML files

---
 include/aleph/topology/io/GraphML.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 5ac20ab..d3c1466 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -393,7 +393,10 @@ private:
           auto key   = child->Attribute( "key" );
           auto value = child->GetText();
 
-          dict[key] = value;
+          if( !key )
+            throw std::runtime_error( "Data element must specify key" );
+
+          dict[key] = value ? value : "";
         }
 
         child = child->NextSiblingElement();
-- 
2.43.0


From e6e2b4ce1b5094174d9dd3e7b90df12b0597ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 074/148] fix: support nodes without weights in GraphML files
 when assigning edge weights

---
 include/aleph/topology/io/GraphML.hh | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index d3c1466..3b127fe 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -250,15 +250,12 @@ public:
         {
           auto iu = id_to_index_map.at( edge.source );
           auto iv = id_to_index_map.at( edge.target );
-          auto du = _nodes.at( iu ).dict.at( _graph.nodeKeys.at( _nodeWeightAttribute ) );
-          auto dv = _nodes.at( iv ).dict.at( _graph.nodeKeys.at( _nodeWeightAttribute ) );
-
-          // There is no need to check the success of the conversion
-          // because we already processed the nodes before. Failures
-          // to convert the data type have already been processed at
-          // this point.
-          auto wu = convert<DataType>( du );
-          auto wv = convert<DataType>( dv );
+
+          // There is no need to convert the weights again because we
+          // already processed the nodes before, in the same order as
+          // their indices.
+          auto wu = simplices.at( iu ).data();
+          auto wv = simplices.at( iv ).data();
 
           weight = f(wu, wv);
         }
-- 
2.43.0


From c2cf103ebc01519024196c7b1cc9c9baaff9e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 075/148] fix: do not report labels of a file that has been
 read before

---
 include/aleph/topology/io/SimplicialComplexReader.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 4095c87..b0df68a 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -96,6 +96,8 @@ public:
 
     auto extension = aleph::utilities::extension( filename );
 
+    _labels.clear();
+
     // The GML parser works more or less on its own and does not make
     // use of any stored variables.
     if( extension == ".gml" )
-- 
2.43.0


From e96355d091e10c1ec98c0878a0030ddf15e19746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 076/148] fix: use functor when reading GML and HDF5 files

---
 include/aleph/topology/io/SimplicialComplexReader.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index b0df68a..7186e10 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -103,7 +103,7 @@ public:
     if( extension == ".gml" )
     {
       GMLReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
 
       using VertexType = typename SimplicialComplex::ValueType::VertexType;
 
@@ -115,7 +115,7 @@ public:
     else if( extension == ".h5" )
     {
       HDF5SimpleDataSpaceReader reader;
-      reader( filename, K );
+      reader( filename, K, functor );
     }
 
     // The Pajek parser also works on its own and does not require any
-- 
2.43.0


From c38080ffddee4e26c3da7cd1b0d2aec0b285b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:01 +0000
Subject: [PATCH 077/148] fix: assign labels of Pajek files to their vertices

Labels were sorted lexicographically and empty labels were removed, so that
labels did not match the vertices any more.
---
 .../aleph/topology/io/SimplicialComplexReader.hh   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 7186e10..c15339c 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iterator>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -125,7 +126,13 @@ public:
       PajekReader reader;
       reader( filename, K );
 
-      _labels = getLabels( reader.getLabelMap() );
+      // Sort labels according to the vertices, instead of their string
+      // representation.
+      std::map<unsigned long, std::string> labelMap;
+      for( auto&& pair : reader.getLabelMap() )
+        labelMap[ std::stoul( pair.first ) ] = pair.second;
+
+      _labels = getLabels( labelMap );
     }
 
     // For PLY files, the parser supports optionally reading a property
@@ -251,10 +258,7 @@ private:
     labels.reserve( map.size() );
 
     for( auto&& pair : map )
-    {
-      if( !pair.second.empty() )
-        labels.push_back( pair.second );
-    }
+      labels.push_back( pair.second );
 
     return labels;
   }
-- 
2.43.0


From cd8bb5ef83ec956a96cff5a2ffb436248d2bece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 078/148] fix: skip comments when reading adjacency matrices

---
 include/aleph/topology/io/AdjacencyMatrix.hh | 30 +++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 3ef1406..91a40ac 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -118,8 +118,8 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position    = in.tellg();
-    std::size_t n    = 0;
+    std::size_t n     = 0;
+    std::size_t width = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
     // the file. They are supposed to correspond to a matrix with some
@@ -132,22 +132,32 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         // Skip empty lines and comments as promised
         if( line.empty() || line.front() == '#' )
           continue;
 
+        auto tokens = splitByWhitespace( line );
+
+        if( width == 0 )
+          width = tokens.size();
+        else if( width != tokens.size() )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          values.push_back( convert<DataType>( token, success ) );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
+        }
+
         ++n;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
-    // FIXME: this will not work in case comments are part of the file.
-    // Drat---should probably rewrite it.
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
     if( values.empty() )
-- 
2.43.0


From cf3a5c1590383942450693929561ed800247b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 079/148] fix: ignore NaNs when calculating extremal weights of
 adjacency matrices

---
 include/aleph/topology/io/AdjacencyMatrix.hh | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 91a40ac..3996e05 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -179,9 +179,22 @@ public:
     DataType maxWeight = DataType();
 
     {
-      auto minmax = std::minmax_element( values.begin(), values.end() );
-      minWeight   = *minmax.first;
-      maxWeight   = *minmax.second;
+      // Missing edges must not have any influence on the weights
+      auto weights = values;
+
+      if( _ignoreNaNs )
+      {
+        weights.erase( std::remove_if( weights.begin(), weights.end(),
+                                       [] ( DataType w ) { return std::isnan( w ); } ),
+                       weights.end() );
+      }
+
+      if( !weights.empty() )
+      {
+        auto minmax = std::minmax_element( weights.begin(), weights.end() );
+        minWeight   = *minmax.first;
+        maxWeight   = *minmax.second;
+      }
     }
 
     // Edges -----------------------------------------------------------
-- 
2.43.0


From b1241a334543c5887811a528cc4bd0d3d02c0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 080/148] fix: do not convert matrix indices to vertices when
 reading adjacency matrices

---
 include/aleph/topology/io/AdjacencyMatrix.hh          | 2 +-
 include/aleph/topology/io/BipartiteAdjacencyMatrix.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 3996e05..536952c 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -210,7 +210,7 @@ public:
       // not be considered here.
       for( std::size_t x = y + 1; x < _dimension; x++ )
       {
-        auto i = static_cast<VertexType>( _dimension * y + x   );
+        auto i = _dimension * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 46b784e..70b3fa9 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -144,7 +144,7 @@ public:
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
-        auto i = static_cast<VertexType>( _width * y + x   );
+        auto i = _width * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
-- 
2.43.0


From 6cf34451f944506295c37e9ab6d6472d1a001404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 081/148] fix: skip comments and empty lines when reading
 bipartite adjacency matrices

---
 .../topology/io/BipartiteAdjacencyMatrix.hh   | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 70b3fa9..dfe7fbb 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -72,8 +72,8 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position      = in.tellg();
     std::size_t height = 0;
+    std::size_t width  = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
     // the file. They are supposed to correspond to a matrix with some
@@ -85,14 +85,32 @@ public:
     {
       std::string line;
       while( std::getline( in, line ) )
-        ++height;
+      {
+        line = trim( line );
 
-      in.clear();
-      in.seekg( position );
-    }
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
 
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
+        auto tokens = splitByWhitespace( line );
+
+        if( width == 0 )
+          width = tokens.size();
+        else if( width != tokens.size() )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          values.push_back( convert<DataType>( token, success ) );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
+        }
+
+        ++height;
+      }
+    }
 
     // We cannot fill an empty simplicial complex. It might be useful to
     // throw an error here, though.
@@ -100,9 +118,7 @@ public:
       return;
 
     _height = height;
-    _width  = values.size() / height;
-    if( values.size() % height != 0 )
-      throw std::runtime_error( "Format error: number of columns must not vary" );
+    _width  = width;
 
     // This is required in order to assign the weight of nodes
     // correctly; we cannot trust the weights to be positive.
-- 
2.43.0


From 40b7458711be440afc4e559f41583eedd300e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 082/148] fix: skip comments and empty lines when reading
 matrices

---
 include/aleph/topology/io/Matrix.hh | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/aleph/topology/io/Matrix.hh b/include/aleph/topology/io/Matrix.hh
index 593b829..0d1c7a3 100644
--- a/include/aleph/topology/io/Matrix.hh
+++ b/include/aleph/topology/io/Matrix.hh
@@ -111,45 +111,50 @@ public:
   /** @overload operator()( const std::string&, SimplicialComplex&, SimplicialComplex&, Functor ) */
   template <class SimplicialComplex, class Functor> void operator()( std::istream& in, SimplicialComplex& K, Functor f )
   {
-    auto position = in.tellg();
+    using Simplex    = typename SimplicialComplex::ValueType;
+    using DataType   = typename Simplex::DataType;
+    using VertexType = typename Simplex::VertexType;
 
     std::size_t height = 0;
     std::size_t width  = 0;
 
+    std::vector<DataType> values;
+
     using namespace aleph::utilities;
 
     {
       std::string line;
       while( std::getline( in, line ) )
       {
-        line        = trim( line );
-        auto tokens = split( line );
+        line = trim( line );
+
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
+        auto tokens = splitByWhitespace( line );
 
         if( width == 0 )
           width = tokens.size();
         else if( width != tokens.size() )
           throw std::runtime_error( "Format error: number of columns must not vary" );
 
+        for( auto&& token : tokens )
+        {
+          bool success = false;
+          values.push_back( convert<DataType>( token, success ) );
+
+          if( !success )
+            throw std::runtime_error( "Format error: unable to convert matrix entry" );
+        }
+
         ++height;
       }
-
-      in.clear();
-      in.seekg( position );
     }
 
     _height = height;
     _width  = width;
 
-    using Simplex    = typename SimplicialComplex::ValueType;
-    using DataType   = typename Simplex::DataType;
-    using VertexType = typename Simplex::VertexType;
-
-    std::vector<DataType> values;
-    values.reserve( _height * _width );
-
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     std::vector<Simplex> simplices;
 
     // Vertices --------------------------------------------------------
-- 
2.43.0


From f62aa97e7f9b7e386133cfabec6d3cf09eba581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 083/148] fix: support empty matrices

---
 include/aleph/topology/io/Matrix.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/io/Matrix.hh b/include/aleph/topology/io/Matrix.hh
index 0d1c7a3..7c44be0 100644
--- a/include/aleph/topology/io/Matrix.hh
+++ b/include/aleph/topology/io/Matrix.hh
@@ -170,7 +170,7 @@ public:
 
     for( std::size_t y = 0; y < _height; y++ )
     {
-      for( std::size_t x = 0; x < _width - 1; x++ )
+      for( std::size_t x = 0; x + 1 < _width; x++ )
       {
         // current:   (x,  y) --> width * y + x
         // neighbour: (x+1,y) --> width * y + x+1
@@ -184,7 +184,7 @@ public:
 
     // Vertical edges --------------------------------------------------
 
-    for( std::size_t y = 0; y < _height - 1; y++ )
+    for( std::size_t y = 0; y + 1 < _height; y++ )
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
@@ -200,9 +200,9 @@ public:
 
     // Diagonal edges --------------------------------------------------
 
-    for( std::size_t y = 0; y < _height - 1; y++ )
+    for( std::size_t y = 0; y + 1 < _height; y++ )
     {
-      for( std::size_t x = 0; x < _width - 1; x++ )
+      for( std::size_t x = 0; x + 1 < _width; x++ )
       {
         // current:   (x  ,y  ) --> width * (y  ) + x
         // neighbour: (x+1,y+1) --> width * (y+1) + x+1
@@ -218,9 +218,9 @@ public:
 
     if( _addTriangles )
     {
-      for( std::size_t y = 0; y < _height - 1; y++ )
+      for( std::size_t y = 0; y + 1 < _height; y++ )
       {
-        for( std::size_t x = 0; x < _width - 1; x++ )
+        for( std::size_t x = 0; x + 1 < _width; x++ )
         {
           /*
             [a] (x,y  ) o---o (x+1,y  ) [b]
-- 
2.43.0


From 060574b65d051792b0b37ed7e8b1c02d2da0b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 084/148] fix: permit reading sparse adjacency matrices without
 graph labels

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 865e6a2..b099d8d 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -153,7 +153,8 @@ public:
       // Most of the time, this just degenerates into an identity
       // lookup, but in case labels are not contiguous, they will
       // be assigned correctly here.
-      labels[index] = _graphLabels.at( index );
+      if( _readGraphLabels )
+        labels[index] = _graphLabels.at( index );
 
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
@@ -188,7 +189,7 @@ public:
     for( auto&& K : complexes )
       K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
-    if( labels.size() < _graphLabels.size() )
+    if( _readGraphLabels && labels.size() < _graphLabels.size() )
       _graphLabels = labels;
   }
 
-- 
2.43.0


From 43a7aa9feb5781f5679ebc57b12d71ce7951e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 085/148] fix: keep isolated vertices when reading sparse
 adjacency matrices

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index b099d8d..24b5806 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -97,15 +97,15 @@ public:
 
     std::unordered_map<VertexType, IndexType> node_id_to_index;
 
+    // Add also those nodes that are only defined implicitly because
+    // they are isolated. This requires traversing the map that maps
+    // node IDs to graph IDs.
+    for( auto&& pair : node_id_to_graph_id )
+      vertices.insert( pair.first );
+
     {
       std::set<VertexType> vertices_( vertices.begin(), vertices.end() );
 
-      // Add also those nodes that are only defined implicitly because
-      // they are isolated. This requires traversing the map that maps
-      // node IDs to graph IDs.
-      for( auto&& pair : node_id_to_graph_id )
-        vertices_.insert( pair.first );
-
       IndexType index = IndexType();
 
       for( auto&& id : vertices_ )
-- 
2.43.0


From 72aa5960d5a3ed401c35e017b147c8d375767d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 086/148] fix: report nodes of sparse adjacency matrices that
 do not belong to any graph

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 24b5806..53209a7 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -145,6 +145,9 @@ public:
 
     for( auto&& vertex : vertices )
     {
+      if( node_id_to_graph_id.find( vertex ) == node_id_to_graph_id.end() )
+        throw std::runtime_error( "Format error: node does not belong to any graph" );
+
       auto&& id    = node_id_to_graph_id[vertex];
       auto&& index = graph_id_to_index[id];
       auto&& K     = complexes[index];
-- 
2.43.0


From 26ba5eb34f6cef3c61bae7a31bd6ac3ca7fcc6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 087/148] fix: report missing attributes of sparse adjacency
 matrices

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 53209a7..415973c 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -162,7 +162,7 @@ public:
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
         auto&& index = node_id_to_index[vertex];
-        s.setData( static_cast<DataType>( _nodeAttributes[index][ _nodeAttributeIndex ] ) );
+        s.setData( static_cast<DataType>( _nodeAttributes.at( index ).at( _nodeAttributeIndex ) ) );
       }
 
       K.push_back( s );
@@ -184,7 +184,7 @@ public:
       auto s       = Simplex( {u,v} );
 
       if( _readEdgeAttributes && isValidIndex( _edgeAttributeIndex ) )
-        s.setData( static_cast<DataType>( _edgeAttributes[i][ _edgeAttributeIndex ] ) );
+        s.setData( static_cast<DataType>( _edgeAttributes.at( i ).at( _edgeAttributeIndex ) ) );
 
       K.push_back( s );
     }
-- 
2.43.0


From 163d5f117a61021910680662c6928e5b40600d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:01 +0000
Subject: [PATCH 088/148] fix: do not report node labels of previous sparse
 adjacency matrices

---
 include/aleph/topology/io/SparseAdjacencyMatrix.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 415973c..77109a5 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -381,6 +381,8 @@ private:
   {
     auto nodeLabelsFilename = getFilenameNodeLabels( filename );
 
+    _nodeLabels.clear();
+
     // Node labels are optional so we should not throw an error if they
     // cannot found.
     if( !aleph::utilities::exists( nodeLabelsFilename ) )
-- 
2.43.0


From 432a1e6247da0e63ccbc866bb06caab10c3da891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:47 +0000
Subject: [PATCH 089/148] fix: load point clouds without newline at the end of
 the file

---
 include/aleph/containers/PointCloud.hh | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 88438a8..3284206 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -233,26 +233,19 @@ template<class T> PointCloud<T> load( std::istream& in )
   if( !in )
     return PointCloud<T>();
 
-  auto lines = std::count( std::istreambuf_iterator<char>( in ),
-                           std::istreambuf_iterator<char>(),
-                           '\n' );
+  std::size_t n = 0;
 
-  in.clear();
-  in.seekg( 0 );
-
-  if( lines <= 0 )
-    return PointCloud<T>();
-
-  // Recount all lines in the file, removing comments and empty lines
-  // from the calculation. Else, the code below allocates many points
-  // that will remain empty.
+  // Count all lines in the file, ignoring comments and empty lines in
+  // the calculation. Else, the code below allocates many points which
+  // will remain empty. The last line is not required to be terminated
+  // by a newline character.
   {
     std::string line;
     while( std::getline( in, line ) )
     {
       line = utilities::trim( line );
-      if( line.empty() || line.front() == '#' )
-        lines -= 1;
+      if( !line.empty() && line.front() != '#' )
+        n += 1;
     }
   }
 
@@ -261,7 +254,6 @@ template<class T> PointCloud<T> load( std::istream& in )
 
   std::size_t i = 0;
   std::size_t d = 0;
-  std::size_t n = static_cast<std::size_t>( lines );
 
   std::string line;
 
-- 
2.43.0


From 008451f41f22554919b27fb4fe73958ed6e3823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:47 +0000
Subject: [PATCH 090/148] fix: add missing include for point clouds

---
 include/aleph/containers/PointCloud.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 3284206..ea6f6b4 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -9,6 +9,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 #include <cstddef>
 
-- 
2.43.0


From be94a9835aa395f41cb4e05bd66b5a9a67bd0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:42 +0000
Subject: [PATCH 091/148] fix: compare points of different dimensions

---
 include/aleph/geometry/Point.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/geometry/Point.hh b/include/aleph/geometry/Point.hh
index 45d4aab..5bc630b 100644
--- a/include/aleph/geometry/Point.hh
+++ b/include/aleph/geometry/Point.hh
@@ -80,7 +80,7 @@ public:
   /** Checks all coordinates of two points for equality */
   bool operator==( const Point& other ) const noexcept
   {
-    return std::equal( _data.begin(), _data.end(), other._data.begin() );
+    return _data == other._data;
   }
 
   /** Checks whether at least one coordinate of the two points differs */
-- 
2.43.0


From 7e69b46c992e35b5486d1b3bd15623702b78532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 092/148] fix: initialize property descriptors of PLY files

---
 include/aleph/topology/io/PLY.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 0fa3f85..98c600a 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -272,7 +272,7 @@ public:
         dataType = utilities::trim( dataType );
         name     = utilities::trim( name );
 
-        PropertyDescriptor descriptor;
+        PropertyDescriptor descriptor = PropertyDescriptor();
         descriptor.index = propertyIndex;
 
         // List of properties require a special handling. The syntax is
-- 
2.43.0


From 0e94186ac600d3ed6ab7f30e7f3019c0b2a146d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 093/148] fix: permit PLY files without faces

---
 include/aleph/topology/io/PLY.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 98c600a..689ae0b 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -8,8 +8,6 @@
 
 #include <aleph/topology/filtrations/Data.hh>
 
-#include <cassert>
-
 #include <fstream>
 #include <limits>
 #include <map>
@@ -323,8 +321,8 @@ public:
     }
     while( !headerParsed && in );
 
-    assert( numVertices > 0 );
-    assert( numFaces    > 0 );
+    if( !headerParsed )
+      throw std::runtime_error( "Format error: Expecting \"end_header\"" );
 
     using Simplex = typename SimplicialComplex::ValueType;
 
-- 
2.43.0


From 2edf6cb7d13af9ad80b947b95e9e4456546740e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 094/148] fix: report faces of unknown vertices in PLY files

---
 include/aleph/topology/io/PLY.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 689ae0b..00d0a3d 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -8,6 +8,7 @@
 
 #include <aleph/topology/filtrations/Data.hh>
 
+#include <algorithm>
 #include <fstream>
 #include <limits>
 #include <map>
@@ -512,6 +513,9 @@ private:
         if( !converter )
           throw std::runtime_error( "Unable to parse vertex indices" );
 
+        if( std::max( { i1, i2, i3 } ) >= numVertices )
+          throw std::runtime_error( "Format error: Face refers to unknown vertex" );
+
         Simplex triangle( {i1,i2,i3} );
 
         // Create edges ----------------------------------------------
-- 
2.43.0


From f7021c62f07a2653d20db33b171163a9cc2dd298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 095/148] fix: permit arbitrary names for scalars in VTK files

---
 include/aleph/topology/io/VTK.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index b064bc5..6691404 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -128,8 +128,8 @@ public:
     // attributes are supported.
 
     std::regex rePointData( "POINT_DATA[[:space:]]+([[:digit:]]+)" );
-    std::regex reScalars( "SCALARS[[:space:]]+([[:alnum:]]+)[[:space:]]+([[:alnum:]]+)[[:space:]]*([[:digit:]]*)" );
-    std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([[:alnum:]]+)" );
+    std::regex reScalars( "SCALARS[[:space:]]+([^[:space:]]+)[[:space:]]+([_[:alnum:]]+)[[:space:]]*([[:digit:]]*)" );
+    std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([^[:space:]]+)" );
 
     std::vector<DataType> coordinates;
     coordinates.reserve( n*3 );
-- 
2.43.0


From d4ecdd805cae1b3124fa3ace1dac2570c93866bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 096/148] fix: ignore empty lines and trailing spaces in VTK
 files

---
 include/aleph/topology/io/VTK.hh | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index 6691404..75d131a 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -134,16 +134,12 @@ public:
     std::vector<DataType> coordinates;
     coordinates.reserve( n*3 );
 
-    while( std::getline( in, line ) )
+    while( coordinates.size() != n*3 && std::getline( in, line ) )
     {
-      line         = trim( line );
-      auto strings = split( line );
+      auto strings = splitByWhitespace( line );
 
       for( auto&& coordinate : strings )
         coordinates.push_back( convert<DataType>( coordinate ) );
-
-      if( coordinates.size() == n*3 )
-        break;
     }
 
     std::vector<DataType> values;
@@ -154,6 +150,8 @@ public:
 
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         if( std::regex_match( line, matches, rePointData ) )
         {
           auto sn = matches[1];
@@ -180,8 +178,7 @@ public:
         }
         else
         {
-          line         = trim( line );
-          auto strings = split( line );
+          auto strings = splitByWhitespace( line );
 
           for( auto&& value : strings )
             values.push_back( convert<DataType>( value ) );
-- 
2.43.0


From 7f9d2382be69fda989afcb2ab931e3350c00eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 097/148] fix: report VTK files with an unexpected number of
 values

---
 include/aleph/topology/io/VTK.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index 75d131a..050c9e5 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -186,6 +186,9 @@ public:
       }
     }
 
+    if( values.size() != n || nx*ny*nz != n )
+      throw std::runtime_error( "Format error: number of values does not match number of points" );
+
     // Create topology -------------------------------------------------
     //
     // Notice that this class only adds 0-simplices and 1-simplices to
-- 
2.43.0


From 2206d3653610a12fd638043e3b3b1d9711193029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 098/148] fix: support unsigned types for points of VTK files

---
 include/aleph/topology/io/VTK.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index 050c9e5..ef394fb 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -391,7 +391,7 @@ private:
     y = std::size_t( std::stoull( sy ) );
     z = std::size_t( std::stoull( sz ) );
 
-    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]]+)" );
+    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([_[:alpha:]]+)" );
     if( !std::regex_match( points, matches, rePoints ) )
       return false;
 
@@ -418,7 +418,7 @@ private:
       s = sizeof(unsigned short);
     else if( st == "char" )
       s = sizeof(char);
-    else if( st == "unsigned char" )
+    else if( st == "unsigned_char" )
       s = sizeof(unsigned char);
     else if( st == "bit" )
       s = sizeof(bool);
-- 
2.43.0


From fb43162426056f57b0f219cd5d914d8abe4019be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 099/148] fix: do not report scalars of previous VTK files

---
 include/aleph/topology/io/VTK.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index ef394fb..e875e82 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -121,6 +121,9 @@ public:
     // in order to see whether it is capable of storing the data.
     _dataTypeSize = s;
 
+    _scalarsName.clear();
+    _scalarsType.clear();
+
     // Parse body ------------------------------------------------------
     //
     // The body contains coordinates for each of the points, which are
-- 
2.43.0


From 63673ed77ffaf5ad0664640c793d2ad319cc5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 100/148] fix: do not create empty complexes for lines without
 triangulations

---
 include/aleph/topology/io/LexicographicTriangulation.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 22c2ce4..5638c8a 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -96,7 +96,7 @@ public:
         block = trim( block );
       }
 
-      if( isBlockFinished( block ) )
+      if( mode == Mode::ParsingList && isBlockFinished( block ) )
       {
         result.emplace_back( parseBlock<SimplicialComplex>( block ) );
         mode      = Mode::ParsingBlocks;
@@ -121,7 +121,7 @@ private:
     auto numOpeningBrackets = std::count( block.begin(), block.end(), '[' );
     auto numClosingBrackets = std::count( block.begin(), block.end(), ']' );
 
-    return numOpeningBrackets == numClosingBrackets;
+    return numOpeningBrackets > 0 && numOpeningBrackets == numClosingBrackets;
   }
 
   /**
-- 
2.43.0


From 243c06a5497862358e10f43ac835cd734b6aaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 101/148] fix: do not loop endlessly for invalid triangulations

---
 .../aleph/topology/io/LexicographicTriangulation.hh   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 5638c8a..ba417c5 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -181,6 +181,8 @@ private:
 
           ++it;
           parsingSimplex = false;
+
+          continue;
         }
         // Finished parsing the simplicial complex
         else
@@ -189,8 +191,15 @@ private:
 
       // Just skip all valid characters and try to directly proceed with
       // the parsing process.
-      if( *it == ',' || std::isspace( *it ) )
+      else if( *it == ',' || std::isspace( *it ) )
+      {
         ++it;
+        continue;
+      }
+
+      // Format error: unexpected character between two simplices
+      else
+        return {};
 
       // Look ahead until the next "]" appears. Tokenize the list of
       // vertices in between.
-- 
2.43.0


From 54601257673840d45d6b205afdd712f8e8758886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 102/148] fix: do not report values of previous spectra

---
 include/aleph/topology/io/FlexSpectrum.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index ff22c86..4bb41ad 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -42,6 +42,9 @@ public:
     std::vector<DataType> intensities;
     std::vector<Simplex> simplices;
 
+    _index_to_value.clear();
+    _index_to_intensity.clear();
+
     // Read lines & create vertices ------------------------------------
     //
     // This only fills up the auxiliary data structure of the spectrum
-- 
2.43.0


From 2b90b77a6ca766a958083289ed2ed500793397d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 103/148] fix: normalize spectra with a single value

---
 include/aleph/topology/io/FlexSpectrum.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index 4bb41ad..3538459 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -75,9 +75,9 @@ public:
       ++index;
     }
 
-    // Abandon further calculations; the simplicial complex is empty or
-    // almost empty and no edges can be added.
-    if( index <= 1)
+    // Abandon further calculations; the simplicial complex is empty and
+    // no edges can be added.
+    if( index == 0 )
     {
       K = SimplicialComplex( simplices.begin(), simplices.end() );
       return;
-- 
2.43.0


From c0f4bbf764ad730489f1907468e8c2c3e927b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 104/148] fix: use correct width and height for HDF5 data sets

---
 include/aleph/topology/io/HDF5.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 4c046fc..fd890bb 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -98,13 +98,15 @@ public:
     std::size_t height = 0;
 
     {
-      hsize_t* dimensions = new hsize_t[ dimension ];
+      std::vector<hsize_t> dimensions( static_cast<std::size_t>( dimension ) );
 
-      dataSpace.getSimpleExtentDims( dimensions,
+      dataSpace.getSimpleExtentDims( dimensions.data(),
                                      nullptr );
 
-      width  = dimensions[0];
-      height = dimensions[1];
+      // Data are stored in row-major order, so the last dimension is the
+      // one that changes fastest.
+      width  = dimensions[1];
+      height = dimensions[0];
 
       assert( width * height == std::size_t( numVertices ) );
     }
-- 
2.43.0


From e458aacd53066565b86309015b6e64ea2b2357db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:43 +0000
Subject: [PATCH 105/148] fix: convert byte order when reading HDF5 data sets

---
 include/aleph/topology/io/HDF5.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index fd890bb..68805f1 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -240,14 +240,14 @@ private:
     {
       std::vector<double> data_( size );
 
-      dataSet.read( &data_[0], dataType );
+      dataSet.read( &data_[0], H5::PredType::NATIVE_DOUBLE );
       data.assign( data_.begin(), data_.end() );
     }
     else if( std::find( floatTypes.begin(), floatTypes.end(), dataType ) != floatTypes.end() )
     {
       std::vector<float> data_( size );
 
-      dataSet.read( &data_[0], dataType );
+      dataSet.read( &data_[0], H5::PredType::NATIVE_FLOAT );
       data.assign( data_.begin(), data_.end() );
     }
     else
-- 
2.43.0


From 508b0ff6898b322889423022d4522ed28ae3c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:07 +0000
Subject: [PATCH 106/148] fix: handle a single point when calculating
 eccentricities of order zero

---
 include/aleph/containers/DataDescriptors.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/containers/DataDescriptors.hh b/include/aleph/containers/DataDescriptors.hh
index 96a0da6..268a7b2 100644
--- a/include/aleph/containers/DataDescriptors.hh
+++ b/include/aleph/containers/DataDescriptors.hh
@@ -77,7 +77,7 @@ template <class Distance, class Container> std::vector<double> eccentricities( c
       eccentricity = aleph::math::accumulate_kahan( distances.begin(), distances.end(), 0.0 );
       eccentricity = std::pow( eccentricity, 1.0 / order );
     }
-    else
+    else if( !distances.empty() )
       eccentricity = *std::max_element( distances.begin(), distances.end() );
 
     eccentricities.push_back( eccentricity );
-- 
2.43.0


From 8bed7e07e65d6ee05690e872fe3a264045af5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:07 +0000
Subject: [PATCH 107/148] fix: permit the distance to a measure for containers
 of any element type

---
 include/aleph/containers/DataDescriptors.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aleph/containers/DataDescriptors.hh b/include/aleph/containers/DataDescriptors.hh
index 268a7b2..4bef30f 100644
--- a/include/aleph/containers/DataDescriptors.hh
+++ b/include/aleph/containers/DataDescriptors.hh
@@ -148,10 +148,11 @@ template <
   std::vector<double> densities;
   densities.reserve( n );
 
-  using IndexType = typename Wrapper::IndexType;
+  using IndexType   = typename Wrapper::IndexType;
+  using ElementType = typename Wrapper::ElementType;
 
   std::vector< std::vector<IndexType> > indices;
-  std::vector< std::vector<double> > distances;
+  std::vector< std::vector<ElementType> > distances;
 
   Wrapper nnWrapper( container );
   nnWrapper.neighbourSearch( k, indices, distances );
-- 
2.43.0


From 89925da5d91a9b9c986e953f0f2a7d312dbc9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:07 +0000
Subject: [PATCH 108/148] fix: include the summation class used by the mean
 shift smoothing

---
 include/aleph/containers/MeanShift.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aleph/containers/MeanShift.hh b/include/aleph/containers/MeanShift.hh
index 14bf57c..24d40ad 100644
--- a/include/aleph/containers/MeanShift.hh
+++ b/include/aleph/containers/MeanShift.hh
@@ -1,6 +1,8 @@
 #ifndef ALEPH_CONTAINERS_MEAN_SHIFT_HH__
 #define ALEPH_CONTAINERS_MEAN_SHIFT_HH__
 
+#include <aleph/math/KahanSummation.hh>
+
 #include <algorithm>
 #include <iterator>
 #include <vector>
-- 
2.43.0


From f783721285103b2ef51b98c88017a16f5f3c96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:07 +0000
Subject: [PATCH 109/148] fix: permit including the correlation dimension in
 several files

---
 include/aleph/containers/FractalDimension.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/containers/FractalDimension.hh b/include/aleph/containers/FractalDimension.hh
index 8687e49..aaecdf7 100644
--- a/include/aleph/containers/FractalDimension.hh
+++ b/include/aleph/containers/FractalDimension.hh
@@ -6,6 +6,7 @@
 #include <aleph/math/Statistics.hh>
 
 #include <algorithm>
+#include <iterator>
 #include <map>
 #include <stdexcept>
 #include <vector>
@@ -96,7 +97,7 @@ template <
   and determining the best coefficient for a linear fit.
 */
 
-double correlationDimension( const CorrelationDimensionSequence& cds )
+inline double correlationDimension( const CorrelationDimensionSequence& cds )
 {
   if( cds.x.size() != cds.y.size() )
     throw std::runtime_error( "Inconsistent correlation dimension sequence" );
-- 
2.43.0


From 108fb3c1a891254e8feceea8bf76031272f092d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:07 +0000
Subject: [PATCH 110/148] fix: normalize principal components by the number of
 samples

---
 include/aleph/math/PrincipalComponentAnalysis.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/aleph/math/PrincipalComponentAnalysis.hh b/include/aleph/math/PrincipalComponentAnalysis.hh
index ef7892f..0e0c490 100644
--- a/include/aleph/math/PrincipalComponentAnalysis.hh
+++ b/include/aleph/math/PrincipalComponentAnalysis.hh
@@ -8,6 +8,7 @@
   #include <Eigen/SVD>
 #endif
 
+#include <algorithm>
 #include <vector>
 
 #include <cmath>
@@ -60,7 +61,11 @@ public:
       M.row( Index(row) ) = Vector::Map( &data[row][0], Index(m) );
 
     M  = M.rowwise() - M.colwise().mean();
-    M /= std::sqrt( static_cast<T>( m ) );
+
+    // Normalize by the number of samples, so that the squared singular
+    // values are the eigenvalues of the sample covariance matrix.
+    if( n > 1 )
+      M /= std::sqrt( static_cast<T>( n - 1 ) );
 
     Eigen::JacobiSVD<Matrix> svd( M, Eigen::ComputeThinV );
 
-- 
2.43.0


From d35671f52bbb480038824abc4fab38656abde63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:07 +0000
Subject: [PATCH 111/148] fix: use the full neighbour range when estimating the
 local dimensionality

---
 include/aleph/containers/DimensionalityEstimators.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/containers/DimensionalityEstimators.hh b/include/aleph/containers/DimensionalityEstimators.hh
index 67a0c93..7072ffe 100644
--- a/include/aleph/containers/DimensionalityEstimators.hh
+++ b/include/aleph/containers/DimensionalityEstimators.hh
@@ -134,7 +134,7 @@ template <
     std::vector<double> localEstimates;
     localEstimates.reserve( kMax );
 
-    for( unsigned k = kMin; k < kMax; k++ )
+    for( unsigned k = kMin; k <= kMax; k++ )
     {
       auto r = aleph::math::accumulate_kahan( nnDistances.begin(), nnDistances.begin() + k, 0.0 ) / static_cast<double>(k);
       localEstimates.emplace_back( r );
@@ -149,7 +149,7 @@ template <
     std::vector<double> secondTerms;
     secondTerms.reserve( kMax );
 
-    for( unsigned k = kMin; k < kMax - 1; k++ )
+    for( unsigned k = kMin; k < kMax; k++ )
     {
       auto index = k - kMin;
       auto r1    = localEstimates.at(index);
-- 
2.43.0


From 1bb46fea3f1104bda44dbb6605326851e7de4136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:07 +0000
Subject: [PATCH 112/148] fix: return a local dimensionality estimate for every
 point

---
 include/aleph/containers/DimensionalityEstimators.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/containers/DimensionalityEstimators.hh b/include/aleph/containers/DimensionalityEstimators.hh
index 7072ffe..277aef7 100644
--- a/include/aleph/containers/DimensionalityEstimators.hh
+++ b/include/aleph/containers/DimensionalityEstimators.hh
@@ -426,6 +426,10 @@ template <
 
       estimates.push_back( spectralIndex );
     }
+
+    // There is no spectral gap, but every point requires an estimate.
+    else
+      estimates.push_back( static_cast<unsigned>( singularValues.size() ) );
   }
 
   return estimates;
-- 
2.43.0


From d7ef4a182c887fa503797ddf896af114c6f6bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:14 +0000
Subject: [PATCH 113/148] fix: select the smallest eigenvalue when fitting
 spheres to points

---
 include/aleph/geometry/TangentSpace.hh | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/aleph/geometry/TangentSpace.hh b/include/aleph/geometry/TangentSpace.hh
index 9e2236a..fc415f5 100644
--- a/include/aleph/geometry/TangentSpace.hh
+++ b/include/aleph/geometry/TangentSpace.hh
@@ -20,6 +20,9 @@
 
 #include <cassert>
 
+#include <algorithm>
+#include <iterator>
+#include <limits>
 #include <set>
 #include <vector>
 
@@ -410,15 +413,23 @@ private:
       Solver solver;
       solver.compute( D.transpose() * W * D, C );
 
-      auto eigenvalues = solver.eigenvalues();
-      Vector u         = Vector::Zero( 1, d+2 );
+      auto eigenvalues  = solver.eigenvalues();
+      auto eigenvectors = solver.eigenvectors();
+      Vector u          = Vector::Zero( 1, d+2 );
+      T smallest        = std::numeric_limits<T>::max();
 
+      // The best fit belongs to the *smallest* eigenvalue among those of
+      // the eigenvectors that satisfy the constraint. All of these values
+      // are non-negative, but the smallest one vanishes for an exact fit,
+      // so its sign does not convey any information.
       for( Index i = 0; i < d+2; i++ )
       {
-        if( eigenvalues(i).real() > 0 && eigenvalues(i).imag() == 0 )
+        Vector v = eigenvectors.real().col(i);
+
+        if( eigenvalues(i).imag() == 0 && v * C * v.transpose() > 0 && eigenvalues(i).real() < smallest )
         {
-          u = solver.eigenvectors().real().col(i);
-          break;
+          smallest = eigenvalues(i).real();
+          u        = v;
         }
       }
 
-- 
2.43.0


From 68d4ee72641e7e9f42c2274aa498615e56d35584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:06 +0000
Subject: [PATCH 114/148] fix: read the content of binary PLY files

The parser for binary files consumed the vertices but returned no
simplices at all, ignored faces, and reversed the byte order of files that
are stored in the order of the machine. It now translates the data into
the lines of an ASCII file, whose structure is the same.
---
 include/aleph/topology/io/PLY.hh | 139 +++++++++++++++++++------------
 1 file changed, 88 insertions(+), 51 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 00d0a3d..3b410f8 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -13,6 +13,7 @@
 #include <limits>
 #include <map>
 #include <set>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -52,8 +53,6 @@ std::map<std::string, unsigned short> TypeSizeMap = {
 /*
   Maps PLY data types to their 'signedness'. This is required for
   parsing binary files later on.
-
-  TODO: Use this to extend parser
 */
 
 std::map<std::string, bool> TypeSignednessMap = {
@@ -85,7 +84,7 @@ union PLYValue
 
 /*
   Reads a single value from a binary input stream, reversing the storage
-  order if necessary.
+  order if it does not coincide with the one of the current machine.
 */
 
 template <class T> void readValue( std::ifstream& stream,
@@ -93,7 +92,10 @@ template <class T> void readValue( std::ifstream& stream,
                                    bool littleEndian,
                                    T* target )
 {
-  if( !littleEndian || bytes == 1 )
+  const unsigned short one         = 1;
+  const bool isMachineLittleEndian = *reinterpret_cast<const unsigned char*>( &one ) == 1;
+
+  if( littleEndian == isMachineLittleEndian || bytes == 1 )
     stream.read( reinterpret_cast<char*>( target ), static_cast<std::streamsize>( bytes ) );
   else
   {
@@ -105,11 +107,54 @@ template <class T> void readValue( std::ifstream& stream,
     for( std::size_t i = 0; i < bytes; i++ )
       reversedBuffer[i] = buffer[ bytes - 1 - i ];
 
-    std::copy( reversedBuffer, reversedBuffer + bytes, target );
+    std::copy( reversedBuffer, reversedBuffer + bytes, reinterpret_cast<char*>( target ) );
 
     delete[] reversedBuffer;
     delete[] buffer;
   }
+
+  if( !stream )
+    throw std::runtime_error( "Format error: Unexpected end of file" );
+}
+
+/*
+  Reads a single value of a given type from a binary input stream and
+  converts it to a floating point number, which is large enough to
+  represent all of the types exactly.
+*/
+
+inline double readValue( std::ifstream& stream,
+                         const std::string& type,
+                         bool littleEndian )
+{
+  auto bytes     = TypeSizeMap.at( type );
+  PLYValue value = PLYValue();
+
+  if( type == "double" )
+  {
+    readValue( stream, bytes, littleEndian, &value.d );
+    return value.d;
+  }
+  else if( type == "float" )
+  {
+    readValue( stream, bytes, littleEndian, &value.f );
+    return value.f;
+  }
+  else if( bytes == 4 )
+  {
+    readValue( stream, bytes, littleEndian, &value.u );
+    return TypeSignednessMap.at( type ) ? double( value.i ) : double( value.u );
+  }
+  else if( bytes == 2 )
+  {
+    readValue( stream, bytes, littleEndian, &value.us );
+    return TypeSignednessMap.at( type ) ? value.s : value.us;
+  }
+  else
+  {
+    readValue( stream, bytes, littleEndian, &value.uc );
+    return TypeSignednessMap.at( type ) ? static_cast<signed char>( value.uc ) : value.uc;
+  }
 }
 
 } // namespace detail
@@ -141,6 +186,10 @@ public:
     // entry parameter of a list usually have different lengths.
     unsigned bytesListSize;
     unsigned bytesListEntry;
+
+    std::string element;   // Element to which the property belongs
+    std::string type;      // Data type of property (or list entries)
+    std::string sizeType;  // Data type of the list length
   };
 
   template <class SimplicialComplex> void operator()( const std::string& filename, SimplicialComplex& K )
@@ -212,6 +261,8 @@ public:
     unsigned propertyIndex  = 0; // Offset for properties in ASCII files
     unsigned propertyOffset = 0; // Offset for properties in binary files
 
+    std::string currentElement;
+
     bool readingVertexProperties = false;
     bool readingFaceProperties   = false;
 
@@ -242,7 +293,8 @@ public:
         if( !converter )
           throw std::runtime_error( "Element conversion error: Expecting number of elements" );
 
-        name = utilities::trim( name );
+        name           = utilities::trim( name );
+        currentElement = name;
 
         if( name == "vertex" )
         {
@@ -272,7 +324,8 @@ public:
         name     = utilities::trim( name );
 
         PropertyDescriptor descriptor = PropertyDescriptor();
-        descriptor.index = propertyIndex;
+        descriptor.index   = propertyIndex;
+        descriptor.element = currentElement;
 
         // List of properties require a special handling. The syntax is
         // "property list SIZE_TYPE ENTRY_TYPE NAME", e.g. "property
@@ -292,12 +345,15 @@ public:
           descriptor.bytesListSize  = detail::TypeSizeMap.at( sizeType );
           descriptor.bytesListEntry = detail::TypeSizeMap.at( entryType );
           descriptor.name           = listName;
+          descriptor.type           = entryType;
+          descriptor.sizeType       = sizeType;
         }
         else
         {
           descriptor.bytes       = detail::TypeSizeMap.at( dataType );
           descriptor.bytesOffset = propertyOffset;
           descriptor.name        = name;
+          descriptor.type        = dataType;
         }
 
         if( !converter )
@@ -366,63 +422,44 @@ private:
                                                              bool littleEndian,
                                                              const std::vector<PropertyDescriptor>& properties )
   {
-    using DataType   = typename Simplex::DataType;
-    using VertexType = typename Simplex::VertexType;
+    // Translates the binary data into the corresponding lines of an ASCII
+    // file. Their structure is the same.
+    std::stringstream lines;
+    lines.precision( std::numeric_limits<double>::max_digits10 );
 
-    // FIXME: this is just to placate the compiler
+    for( auto&& element : { std::make_pair( std::string( "vertex" ), numVertices ),
+                            std::make_pair( std::string( "face"   ), numFaces    ) } )
     {
-      (void) numFaces;
-
-      VertexType v = VertexType();
-      (void) v;
-
-      DataType weight = DataType();
-      (void) weight;
-    }
-
-    for( std::size_t vertexIndex = 0; vertexIndex < numVertices; vertexIndex++ )
-    {
-      std::vector<double> coordinates;
-
-      for( auto&& descriptor : properties )
+      for( std::size_t i = 0; i < element.second; i++ )
       {
-        // Only faces may have lists for now...
-        if( descriptor.bytesListSize + descriptor.bytesListEntry != 0 )
-          continue;
+        for( auto&& descriptor : properties )
+        {
+          if( descriptor.element != element.first )
+            continue;
 
-        detail::PLYValue pv;
+          std::size_t numEntries = 1;
 
-        switch( descriptor.bytes )
-        {
-          case 8:
-            detail::readValue( in, descriptor.bytes, littleEndian, &pv.d );
-            break;
-          case 4:
-            detail::readValue( in, descriptor.bytes, littleEndian, &pv.f );
-            break;
-          case 2:
-            detail::readValue( in, descriptor.bytes, littleEndian, &pv.s );
-            break;
-          case 1:
-            detail::readValue( in, descriptor.bytes, littleEndian, &pv.c );
-            break;
+          if( !descriptor.sizeType.empty() )
+          {
+            numEntries = static_cast<std::size_t>( detail::readValue( in, descriptor.sizeType, littleEndian ) );
+            lines << numEntries << " ";
+          }
+
+          for( std::size_t j = 0; j < numEntries; j++ )
+            lines << detail::readValue( in, descriptor.type, littleEndian ) << " ";
         }
 
-        // FIXME: Not sure whether this is legal...
-        if( descriptor.name == "x" || descriptor.name == "y" || descriptor.name == "z" )
-          coordinates.push_back( pv.d );
+        lines << "\n";
       }
     }
 
-    for( std::size_t faceIndex = 0; faceIndex < numVertices; faceIndex++ )
-    {
-    }
-
-    return {};
+    return this->parseASCII<Simplex>( lines,
+                                      numVertices, numFaces,
+                                      properties );
   }
 
 
-  template <class Simplex> std::vector<Simplex> parseASCII( std::ifstream& in,
+  template <class Simplex> std::vector<Simplex> parseASCII( std::istream& in,
                                                             std::size_t numVertices, std::size_t numFaces,
                                                             const std::vector<PropertyDescriptor>& properties )
   {
-- 
2.43.0


From a59f25ae7517b88180e3d656aa9d1c1741a20987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 115/148] fix: make the dimension of persistence diagrams
 readable from Python

The getter and the setter of the property were swapped, so every access raised
a TypeError.
---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index b4b51f7..bef509a 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -327,7 +327,7 @@ void wrapPersistenceDiagram( py::module& m )
     )
     .def( "removeDiagonal", &PersistenceDiagram::removeDiagonal )
     .def( "removeUnpaired", &PersistenceDiagram::removeUnpaired )
-    .def_property( "dimension", &PersistenceDiagram::setDimension, &PersistenceDiagram::dimension )
+    .def_property( "dimension", &PersistenceDiagram::dimension, &PersistenceDiagram::setDimension )
     .def_property_readonly( "betti", &PersistenceDiagram::betti )
     .def( "__array__",
       [] ( PersistenceDiagram& D )
-- 
2.43.0


From f23064f544411fe7342f218c4302fcce0e921ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 116/148] fix: return the complex when loading with a functor
 from Python

---
 bindings/python/aleph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index bef509a..9e3f7fd 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -759,6 +759,8 @@ void wrapInputFunctions( py::module& m )
                 return py::cast<bool>( functor(a,b) );
               }
       );
+
+      return K;
     }
   );
 
-- 
2.43.0


From 353585ca0a300bde9afbe46ca76421cca06b5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 117/148] fix: register distances and kernels in the Python
 module

The wrappers existed but were never called.
---
 bindings/python/aleph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 9e3f7fd..6e5c123 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1187,6 +1187,8 @@ PYBIND11_MODULE(aleph, m)
   wrapPersistenceDiagram(m);
   wrapPersistencePairing(m);
   wrapPersistentHomologyCalculation(m);
+  wrapDistanceCalculations(m);
+  wrapKernelCalculations(m);
   wrapRipsExpander(m);
   wrapStepFunction(m);
   wrapInputFunctions(m);
-- 
2.43.0


From f00b7c799fb0de71e89dfba08e0fc8662c2799f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 118/148] fix: respect the strides of arrays passed from Python

Point coordinates were copied as if every array were contiguous, and negative
strides, for example those of reversed arrays, led to reads outside the array.
---
 bindings/python/aleph.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 6e5c123..a75c42b 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -472,7 +472,12 @@ void wrapPersistentHomologyCalculation( py::module& m )
       DataType* target = pointCloud.data();
       DataType* source = reinterpret_cast<DataType*>( bufferInfo.ptr );
 
-      std::copy( source, source + n*d, target );
+      auto rowStride = bufferInfo.strides[0] / static_cast<py::ssize_t>( sizeof(DataType) );
+      auto colStride = bufferInfo.strides[1] / static_cast<py::ssize_t>( sizeof(DataType) );
+
+      for( py::ssize_t i = 0; i < n; i++ )
+        for( py::ssize_t j = 0; j < d; j++ )
+          target[i*d+j] = source[i*rowStride+j*colStride];
 
       using Distance = aleph::geometry::distances::Euclidean<DataType>;
       dimension      = dimension > 0 ? dimension : static_cast<unsigned>( pointCloud.dimension() + 1 );
@@ -554,8 +559,8 @@ void wrapPersistentHomologyCalculation( py::module& m )
       // Determine the proper stride for accessing the array. While it
       // is very probable that this just defaults to the C array index
       // that is so common, i.e. i*m + j, I want to be sure.
-      std::size_t rowStride = std::size_t( bufferInfo.strides[0] ) / sizeof(DataType);
-      std::size_t colStride = std::size_t( bufferInfo.strides[1] ) / sizeof(DataType);
+      auto rowStride = bufferInfo.strides[0] / static_cast<py::ssize_t>( sizeof(DataType) );
+      auto colStride = bufferInfo.strides[1] / static_cast<py::ssize_t>( sizeof(DataType) );
 
       for( VertexType u = 0; u < VertexType(n); u++ )
       {
@@ -850,8 +855,8 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
       // Determine the proper stride for accessing the array. While it
       // is very probable that this just defaults to the C array index
       // that is so common, i.e. i*m + j, I want to be sure.
-      std::size_t rowStride = std::size_t( bufferInfo.strides[0] ) / sizeof(DataType);
-      std::size_t colStride = std::size_t( bufferInfo.strides[1] ) / sizeof(DataType);
+      auto rowStride = bufferInfo.strides[0] / static_cast<py::ssize_t>( sizeof(DataType) );
+      auto colStride = bufferInfo.strides[1] / static_cast<py::ssize_t>( sizeof(DataType) );
 
       // This loop assumes that the diagonal values of the distance
       // matrix are zero. In theory, they could even contain random
@@ -930,8 +935,8 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
       // Determine the proper stride for accessing the array. While it
       // is very probable that this just defaults to the C array index
       // that is so common, i.e. i*m + j, I want to be sure.
-      std::size_t rowStride = std::size_t( bufferInfo.strides[0] ) / sizeof(DataType);
-      std::size_t colStride = std::size_t( bufferInfo.strides[1] ) / sizeof(DataType);
+      auto rowStride = bufferInfo.strides[0] / static_cast<py::ssize_t>( sizeof(DataType) );
+      auto colStride = bufferInfo.strides[1] / static_cast<py::ssize_t>( sizeof(DataType) );
 
       // This loop assumes that the diagonal values of the distance
       // matrix are zero. In theory, they could even contain random
@@ -1027,8 +1032,8 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
       // Determine the proper stride for accessing the array. While it
       // is very probable that this just defaults to the C array index
       // that is so common, i.e. i*m + j, I want to be sure.
-      std::size_t rowStride = std::size_t( bufferInfo.strides[0] ) / sizeof(DataType);
-      std::size_t colStride = std::size_t( bufferInfo.strides[1] ) / sizeof(DataType);
+      auto rowStride = bufferInfo.strides[0] / static_cast<py::ssize_t>( sizeof(DataType) );
+      auto colStride = bufferInfo.strides[1] / static_cast<py::ssize_t>( sizeof(DataType) );
 
       // This loop assumes that the diagonal values of the distance
       // matrix are zero. In theory, they could even contain random
-- 
2.43.0


From c15501d8c1540eb856d3f8044240038cb76f7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 119/148] fix: raise an exception for invalid simplex indices
 in Python

An invalid index resulted in an access outside the complex.
---
 bindings/python/aleph.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index a75c42b..69d8d74 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -246,7 +246,15 @@ void wrapSimplicialComplex( py::module& m )
       }
     )
     .def( "__contains__", &SimplicialComplex::contains )
-    .def( "__getitem__",  &SimplicialComplex::operator[] ) // FIXME: might want to handle negative indices?
+    .def( "__getitem__",                                   // FIXME: might want to handle negative indices?
+      [] ( const SimplicialComplex& K, std::size_t index )
+      {
+        if( index >= K.size() )
+          throw py::index_error( "Simplex index out of range" );
+
+        return K[index];
+      }
+    )
     .def( "__iter__",
       [] ( const SimplicialComplex& K )
       {
-- 
2.43.0


From 71e00bf7f8a5addce0191dae8dedc51cca10f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 120/148] fix: report the merging edges in
 vietoris_rips_from_matrix_2d

The creator of a connected component was taken to be a vertex of the edge that
merges the component, which is not the case in general. The reported pair of
vertices was a different edge then.
---
 bindings/python/aleph.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 69d8d74..d9e4029 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1111,14 +1111,12 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           // make this a proper selection of edges.
           else
           {
-            auto u = K[ pair.first ][0]; // creator is always a vertex
             auto e = K[ pair.second ];   // destroyer is always an edge
 
-            // Select the proper vertex index for the destroyer; this is
-            // just the *other* vertex of the edge.
-            auto v = e[0] != u ? e[0] : e[1];
-
-            selected_edges.push_back( std::make_pair( u, v ) );
+            // The creator does not have to be a vertex of the edge that
+            // merges its connected component with another one, so it is
+            // not used here.
+            selected_edges.push_back( std::make_pair( e[1], e[0] ) );
           }
         }
 
-- 
2.43.0


From 0004c389cd520a3136c886e73e548a227cef7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 121/148] fix: report the largest edge of destroying triangles
 in Python

The first edge that is not smaller than the creator was reported instead.
---
 bindings/python/aleph.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index d9e4029..ce22038 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -1161,17 +1161,17 @@ void wrapVietorisRipsComplexCalculation( py::module& m )
           auto k = i;
           auto l = j;
 
-          if( d1 >= creator.data() )
+          if( d1 >= d2 && d1 >= d3 )
           {
             k = u; 
             l = v;
           }
-          else if( d2 >= creator.data() )
+          else if( d2 >= d3 )
           {
             k = u;
             l = w;
           }
-          else if( d3 >= creator.data() )
+          else
           {
             k = v;
             l = w;
-- 
2.43.0


From f117861b931d429a70d6e3b4405be6cda4b40b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 122/148] fix: do not modify step functions when taking
 absolute values in Python

---
 bindings/python/aleph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index ce22038..7c97747 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -696,7 +696,12 @@ void wrapStepFunction( py::module& m )
             }
       )
     )
-    .def( "__abs__" , &StepFunction::abs )
+    .def( "__abs__" ,
+      [] ( StepFunction f )
+      {
+        return f.abs();
+      }
+    )
     .def( "__add__" ,
       [] ( const StepFunction& f, const StepFunction& g )
       {
-- 
2.43.0


From 4b74a4d07442a9ac03170e0642c20d1aebd84c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:09 +0000
Subject: [PATCH 123/148] fix: use the values of functors when loading from
 Python

The functor assigns weights to simplices, but its values were converted to
truth values.
---
 bindings/python/aleph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index 7c97747..be1737d 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -774,7 +774,7 @@ void wrapInputFunctions( py::module& m )
               K,
               [&functor] ( DataType a, DataType b )
               {
-                return py::cast<bool>( functor(a,b) );
+                return py::cast<DataType>( functor(a,b) );
               }
       );
 
-- 
2.43.0


From 5c482de64445cfe6ffbf41919e195b8e8f70965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:51 +0000
Subject: [PATCH 124/148] fix: keep simplices alive while their boundary is
 iterated in Python

Call policies of properties only take effect if they are part of the getter
function. The boundary of a temporary simplex was read after its deletion.
---
 bindings/python/aleph.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python/aleph.cc b/bindings/python/aleph.cc
index be1737d..f1cc2c4 100644
--- a/bindings/python/aleph.cc
+++ b/bindings/python/aleph.cc
@@ -174,10 +174,12 @@ void wrapSimplex( py::module& m )
           }, py::keep_alive<0,1>()
     )
     .def_property_readonly( "boundary",
-          [] ( const Simplex& simplex )
-          {
-            return py::make_iterator( simplex.begin_boundary(), simplex.end_boundary() );
-          }, py::keep_alive<0,1>()
+          py::cpp_function(
+            [] ( const Simplex& simplex )
+            {
+              return py::make_iterator( simplex.begin_boundary(), simplex.end_boundary() );
+            }, py::keep_alive<0,1>()
+          )
     )
     .def_property_readonly( "dimension", &Simplex::dimension )
     .def_property_readonly( "empty"    , &Simplex::empty )
-- 
2.43.0


From c1c1995a41b73b5d1086f58c5599f5ccf07da7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:24 +0000
Subject: [PATCH 125/148] fix: keep valid points when filtering invalid values
 in persistence_diagram_statistics

Points that contain an invalid value were moved to the diagonal, and the
diagonal was removed afterwards. This removed valid points of zero
persistence as well and changed the number of features and all averages.
---
 src/tools/persistence_diagram_statistics.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/tools/persistence_diagram_statistics.cc b/src/tools/persistence_diagram_statistics.cc
index 510e549..2adc95b 100644
--- a/src/tools/persistence_diagram_statistics.cc
+++ b/src/tools/persistence_diagram_statistics.cc
@@ -186,17 +186,14 @@ int main( int argc, char** argv )
 
       using Point = typename PersistenceDiagram::Point;
 
-      std::transform( input.persistenceDiagram.begin(), input.persistenceDiagram.end(),
-                      input.persistenceDiagram.begin(),
-                      [&invalid] ( const Point& p )
-                      {
-                        if( p.x() == invalid || p.y() == invalid )
-                          return Point( DataType(), DataType() );
-                        else
-                          return Point( p );
-                      } );
-
-      input.persistenceDiagram.removeDiagonal();
+      input.persistenceDiagram.erase(
+        std::remove_if( input.persistenceDiagram.begin(), input.persistenceDiagram.end(),
+                        [&invalid] ( const Point& p )
+                        {
+                          return p.x() == invalid || p.y() == invalid;
+                        } ),
+        input.persistenceDiagram.end()
+      );
 
       std::cerr << "\n";
     }
-- 
2.43.0


From d9aceb480f88769637149e1a364e784a9fea9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:24 +0000
Subject: [PATCH 126/148] fix: take the root of Wasserstein and bottleneck
 distances only once in topological_distance

The distances of all dimensions are summed and the root of the sum is
taken. The summands have to be powers of distances, which only applied to
the Hausdorff distance: for p=2, the tool printed the square root of the
Wasserstein distance.
---
 src/tools/topological_distance.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index dc3a86b..ee48777 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -691,12 +691,12 @@ int main( int argc, char** argv )
         useWassersteinDistance
         ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
              {
-               return aleph::distances::wassersteinDistance( D1, D2, p );
+               return std::pow( aleph::distances::wassersteinDistance( D1, D2, p ), p );
              }
         : useBottleneckDistance
-          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double )
+          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-                 return aleph::distances::bottleneckDistance( D1, D2 );
+                 return std::pow( aleph::distances::bottleneckDistance( D1, D2 ), p );
                }
           : [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-- 
2.43.0


From 39ce4229a4c434b9a16b9e73015ebbe96e51b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:24 +0000
Subject: [PATCH 127/148] fix: let the Hausdorff distance replace the
 bottleneck distance in topological_distance

All other distances can be selected after -b.
---
 src/tools/topological_distance.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index ee48777..75c5972 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -458,6 +458,7 @@ int main( int argc, char** argv )
       useExponentialFunction = true;
       break;
     case 'h':
+      useBottleneckDistance        = false;
       useWassersteinDistance       = false;
       useIndicatorFunctionDistance = false;
       useScaleSpaceKernel          = false;
-- 
2.43.0


From 272cb12152b41312386465903f20450099f65ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:59 +0000
Subject: [PATCH 128/148] fix: calculate signatures of empty persistence
 diagrams

The estimated number of distances wrapped around for a diagram without
points, for example because all of them had been filtered, and the tool
was terminated.
---
 src/tools/make_signature.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/make_signature.cc b/src/tools/make_signature.cc
index e33ccce..e9da7d2 100644
--- a/src/tools/make_signature.cc
+++ b/src/tools/make_signature.cc
@@ -78,7 +78,7 @@ std::vector<DataType> makeSignature( const PersistenceDiagram& D )
   // All pairwise distances with potential repetitions for points that
   // are well outside the influence radius of other points.
   std::vector<DataType> distances;
-  distances.reserve( ( D.size() * D.size() - 1 ) / 2 );
+  distances.reserve( D.size() * ( D.size() - 1 ) / 2 );
 
   for( auto it1 = D.begin(); it1 != D.end(); ++it1 )
   {
-- 
2.43.0


From 6b515a58bdcad9834fcec8ed6454a3b4e9d6e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:51 +0000
Subject: [PATCH 129/148] fix: use the weights of connectivity matrices for the
 filtration

The complex was sorted lexicographically before its persistent homology
was calculated, so that the pairs did not depend on the weights.
---
 src/tools/connectivity_matrix_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 23b1afd..759d403 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -15,6 +15,8 @@
 
 #include <aleph/persistentHomology/Calculation.hh>
 
+#include <aleph/topology/filtrations/Data.hh>
+
 #include <aleph/topology/io/AdjacencyMatrix.hh>
 
 #include <aleph/topology/Simplex.hh>
@@ -132,7 +134,7 @@ int main( int argc, char** argv )
       }
     );
 
-    K.sort();
+    K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
     bool dualize                    = true;
     bool includeAllUnpairedCreators = keepUnpaired;
-- 
2.43.0


From 5893402f1c7d3c7ec82ff616354c9bb2888959c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:51 +0000
Subject: [PATCH 130/148] fix: separate the diagrams in the output of
 connectivity_matrix_analysis

The output was not valid JSON if there was more than one diagram.
---
 src/tools/connectivity_matrix_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 759d403..5bf28de 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -119,6 +119,8 @@ int main( int argc, char** argv )
   std::cout << "{\n"
             << "\"diagrams\": [\n";
 
+  bool first = true;
+
   for( auto&& filename : filenames )
   {
     if( verbose )
@@ -174,6 +176,11 @@ int main( int argc, char** argv )
 
       kvs["persistent_entropy"]  = std::to_string( aleph::persistentEntropy( diagram ) );
 
+      if( !first )
+        std::cout << ",\n";
+
+      first = false;
+
       aleph::io::writeJSON( std::cout, diagram, basename, kvs );
     }
   }
-- 
2.43.0


From 1f7fd14d5d08484d7ac3485da1ef95f2b60a1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:51 +0000
Subject: [PATCH 131/148] fix: use the expanded complexes in
 sparse_adjacency_matrices

The result of the expansion was discarded, so that --dimension did not
have any effect.
---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 80f5ca4..ffb9b9c 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -241,7 +241,7 @@ int main( int argc, char** argv )
     std::cerr << "* Expanding simplicial complexes to dimension " << dimension << "...";
 
     for( auto&& K : simplicialComplexes )
-      expander( K, dimension );
+      K = expander( K, dimension );
 
     std::cerr << "finished\n";
   }
-- 
2.43.0


From 44540c8bf09377c07901248c1fef6cf05ba4d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:51 +0000
Subject: [PATCH 132/148] fix: sort by descending degrees for superlevel sets
 in sparse_adjacency_matrices

Edges were sorted before their vertices, so that the order was not a
filtration.
---
 src/tools/sparse_adjacency_matrices.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index ffb9b9c..896a324 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -33,6 +33,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <functional>
 #include <iostream>
 #include <limits>
 #include <stdexcept>
@@ -315,7 +316,7 @@ int main( int argc, char** argv )
       if( useSuperlevelSets )
       {
         K.sort(
-           aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+           aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
          );
       }
       else
-- 
2.43.0


From 84dca6d8879d6cdc2fc38856752a60c985ff3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:42 +0000
Subject: [PATCH 133/148] fix: identify the vertices of labelled graphs
 correctly in relevant_edges

---
 src/tools/relevant_edges.cc | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/tools/relevant_edges.cc b/src/tools/relevant_edges.cc
index 44b127a..91f4765 100644
--- a/src/tools/relevant_edges.cc
+++ b/src/tools/relevant_edges.cc
@@ -8,7 +8,9 @@
 #include <aleph/topology/SimplicialComplex.hh>
 
 #include <iostream>
+#include <iterator>
 #include <map>
+#include <set>
 #include <string>
 #include <utility>
 #include <unordered_map>
@@ -49,22 +51,11 @@ struct SizeFunctor
     _edgeRelevance[ e ]    = std::min( c_older, c_younger)  / std::max( c_older, c_younger );
     _edgeStrength [ e ]    = _componentSize[older];
 
-    if( _labels.empty() )
-    {
-      std::cerr << "* Edge " << "(" << u << "," << v << "): "
-                << _edgeRelevance[e]
-                << " "
-                << "[" << creation << "," << destruction << "]"
-                << "\n";
-    }
-    else
-    {
-      std::cerr << "* Edge " << "(" << _labels.at(u) << "," << _labels.at(v) << "): "
-                << _edgeRelevance[e]
-                << " "
-                << "[" << creation << "," << destruction << "]"
-                << "\n";
-    }
+    std::cerr << "* Edge " << "(" << label(u) << "," << label(v) << "): "
+              << _edgeRelevance[e]
+              << " "
+              << "[" << creation << "," << destruction << "]"
+              << "\n";
   }
 
   void operator()( VertexType /* root */,
@@ -72,11 +63,18 @@ struct SizeFunctor
   {
   }
 
+  // Vertices without a label are identified by their index
+  std::string label( VertexType v ) const
+  {
+    auto it = _labels.find(v);
+    return it != _labels.end() ? it->second : std::to_string(v);
+  }
+
   std::unordered_map<VertexType, unsigned> _componentSize;
   std::map<Edge, double>                   _edgeRelevance;
   std::map<Edge, unsigned>                 _edgeStrength;
 
-  std::vector<std::string> _labels;
+  std::map<VertexType, std::string> _labels;
 };
 
 }
@@ -96,7 +94,20 @@ int main( int argc, char** argv )
   K.sort( Filtration() );
 
   SizeFunctor sf;
-  sf._labels = reader.labels();
+
+  // Labels follow the order of vertices, which are not necessarily
+  // contiguous.
+  {
+    std::set<VertexType> vertices;
+    K.vertices( std::inserter( vertices, vertices.begin() ) );
+
+    auto labels = reader.labels();
+    auto it     = vertices.begin();
+
+    for( std::size_t i = 0; i < labels.size() && it != vertices.end(); i++, ++it )
+      if( !labels[i].empty() )
+        sf._labels[ *it ] = labels[i];
+  }
 
   auto&& tuple = aleph::calculateZeroDimensionalPersistenceDiagram<Simplex, aleph::traits::PersistencePairingCalculation<aleph::PersistencePairing<VertexType> > >( K, sf );
   auto&& pd    = std::get<0>( tuple );
-- 
2.43.0


From 222d46888c5d719614800d0b6f1c82d959fb9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:42 +0000
Subject: [PATCH 134/148] fix: normalise degrees of graphs without edges in
 sparse_adjacency_matrices

---
 src/tools/sparse_adjacency_matrices.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 896a324..e7c3337 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -276,6 +276,10 @@ int main( int argc, char** argv )
 
     if( normalise )
     {
+      // Graphs without any edges only have vertices of degree zero,
+      // which must not be used for the normalisation.
+      maxDegree = std::max( maxDegree, DataType(1) );
+
       std::transform( degrees.begin(), degrees.end(), degrees.begin(),
                       [&maxDegree] ( DataType degree )
                       {
-- 
2.43.0


From 835fba593a5a69f26386120a4cc9c62dda50e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:42 +0000
Subject: [PATCH 135/148] fix: use a descending order for the reverse
 filtration in ephemeral

---
 src/tools/ephemeral.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 8f53fac..f9ca1e8 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -28,6 +28,7 @@
 #include <cmath>
 
 #include <algorithm>
+#include <functional>
 #include <iostream>
 #include <fstream>
 #include <limits>
@@ -149,7 +150,13 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
     RipsExpander expander;
 
     K = expander( K, dimension );
-    K = expander.assignMaximumWeight( K );
+
+    // A simplex of the descending filtration must not appear before any
+    // of its edges.
+    if( reverse )
+      K.recalculateWeights( false, true );
+    else
+      K = expander.assignMaximumWeight( K );
   }
 
   // Setting both of them would be invalid
@@ -158,7 +165,7 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
   if( reverse )
   {
     K.sort(
-       aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+       aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
      );
   }
   else
-- 
2.43.0


From 07922e767ad27ad8717afc27bb39ce727f1bb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:42 +0000
Subject: [PATCH 136/148] fix: require an argument for the spine option of
 persistent_spines

---
 src/tools/persistent_spines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistent_spines.cc b/src/tools/persistent_spines.cc
index ad25323..4c126ab 100644
--- a/src/tools/persistent_spines.cc
+++ b/src/tools/persistent_spines.cc
@@ -48,7 +48,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "r:st", commandLineOptions, nullptr ) ) != -1 )
+    while( ( option = getopt_long( argc, argv, "r:s:t", commandLineOptions, nullptr ) ) != -1 )
     {
       switch( option )
       {
-- 
2.43.0


From 963ffb9facb6b5f4515e93f15bb72f34503db63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:42 +0000
Subject: [PATCH 137/148] fix: recognize the short option for bootstrap samples
 in piecewise_linear_function_smoothing

---
 src/tools/piecewise_linear_function_smoothing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/piecewise_linear_function_smoothing.cc b/src/tools/piecewise_linear_function_smoothing.cc
index c6e5849..6c37569 100644
--- a/src/tools/piecewise_linear_function_smoothing.cc
+++ b/src/tools/piecewise_linear_function_smoothing.cc
@@ -72,7 +72,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "a:", commandLineOptions, nullptr ) ) != - 1 )
+    while( ( option = getopt_long( argc, argv, "a:n:", commandLineOptions, nullptr ) ) != - 1 )
     {
       switch( option )
       {
-- 
2.43.0


From 5542c4fc13fe9972034fdd61f69e5011619f38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:42 +0000
Subject: [PATCH 138/148] fix: use a strict weak ordering for absolute values
 in stratified_graph_analysis

---
 src/tools/stratified_graph_analysis.cc | 75 ++++++--------------------
 1 file changed, 15 insertions(+), 60 deletions(-)

diff --git a/src/tools/stratified_graph_analysis.cc b/src/tools/stratified_graph_analysis.cc
index d733587..476024d 100644
--- a/src/tools/stratified_graph_analysis.cc
+++ b/src/tools/stratified_graph_analysis.cc
@@ -194,72 +194,27 @@ SimplicialComplex applyFiltration( const SimplicialComplex& K,
   }
   else if( strategy == "absolute" )
   {
-    if( reverse )
+    // Simplices of the same absolute value are sorted by dimension first,
+    // so that vertices precede all of their edges. Afterwards, the signed
+    // value and the lexicographical order are being used.
+    auto functor = [&reverse] ( const Simplex& s, const Simplex& t )
     {
-      auto functor = [] ( const Simplex& s, const Simplex& t )
-      {
-        auto w1 = s.data();
-        auto w2 = t.data();
+      auto w1 = s.data();
+      auto w2 = t.data();
 
-        if( std::abs( w1 ) > std::abs( w2 ) )
-          return true;
-        else if( std::abs( w1 ) == std::abs( w2 ) )
-        {
-          // This amounts to saying that w1 is positive and w2 is
-          // negative.
-          if( w1 > w2 )
-            return true;
-          else
-          {
-            if( s.dimension() < t.dimension() )
-              return true;
-
-            // Absolute value is equal, signed value is equal, and the
-            // dimension is equal. We thus have to fall back to merely
-            // using the lexicographical order.
-            else
-              return s < t;
-          }
-        }
+      if( std::abs( w1 ) != std::abs( w2 ) )
+        return reverse ? std::abs( w1 ) > std::abs( w2 ) : std::abs( w1 ) < std::abs( w2 );
 
-        return false;
-      };
+      if( s.dimension() != t.dimension() )
+        return s.dimension() < t.dimension();
 
-      L.sort( functor );
-    }
-    else
-    {
-      auto functor = [] ( const Simplex& s, const Simplex& t )
-      {
-        auto w1 = s.data();
-        auto w2 = t.data();
-
-        if( std::abs( w1 ) < std::abs( w2 ) )
-          return true;
-        else if( std::abs( w1 ) == std::abs( w2 ) )
-        {
-          // This amounts to saying that w1 is negative and w2 is
-          // positive.
-          if( w1 < w2 )
-            return true;
-          else
-          {
-            if( s.dimension() < t.dimension() )
-              return true;
-
-            // Absolute value is equal, signed value is equal, and the
-            // dimension is equal. We thus have to fall back to merely
-            // using the lexicographical order.
-            else
-              return s < t;
-          }
-        }
+      if( w1 != w2 )
+        return reverse ? w1 > w2 : w1 < w2;
 
-        return false;
-      };
+      return s < t;
+    };
 
-      L.sort( functor );
-    }
+    L.sort( functor );
   }
 
   return L;
-- 
2.43.0


From 7637d22fed3183e2b79971c827c332f4b472f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:42 +0000
Subject: [PATCH 139/148] fix: permit specifying the default normalization in
 stratified_graph_analysis

---
 src/tools/stratified_graph_analysis.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/stratified_graph_analysis.cc b/src/tools/stratified_graph_analysis.cc
index 476024d..416df61 100644
--- a/src/tools/stratified_graph_analysis.cc
+++ b/src/tools/stratified_graph_analysis.cc
@@ -80,6 +80,7 @@
 #include <limits>
 #include <random>
 #include <stdexcept>
+#include <string>
 #include <unordered_map>
 #include <vector>
 
@@ -482,7 +483,7 @@ int main( int argc, char** argv )
       case 'n':
         normalize = true;
 
-        if( optarg != nullptr )
+        if( optarg != nullptr && std::string( optarg ) != "diagram" )
           normalization = optarg;
 
         break;
-- 
2.43.0


From ec980322d23ece99be1ab061db7b1c4925d812ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:42 +0000
Subject: [PATCH 140/148] fix: normalize diagrams of absolute values to the
 unit interval in stratified_graph_analysis

---
 src/tools/stratified_graph_analysis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/stratified_graph_analysis.cc b/src/tools/stratified_graph_analysis.cc
index 416df61..02ae942 100644
--- a/src/tools/stratified_graph_analysis.cc
+++ b/src/tools/stratified_graph_analysis.cc
@@ -650,8 +650,10 @@ int main( int argc, char** argv )
 
       for( auto&& s : K )
       {
-        minData = std::min( minData, s.data() );
-        maxData = std::max( maxData, s.data() );
+        auto data = filtration == "absolute" ? std::abs( s.data() ) : s.data();
+
+        minData = std::min( minData, data );
+        maxData = std::max( maxData, data );
       }
 
       // Ensures that all weights are in [0:1] for the corresponding
-- 
2.43.0


From 23d233aa215cca0242685865ee91c1f7e3b1be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:43 +0000
Subject: [PATCH 141/148] fix: do not truncate the norm of image patches

---
 src/tools/process_image_patches.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 7f99eb1..03323e6 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -193,7 +193,7 @@ int main( int argc, char** argv )
                       return x - mean;
                     } );
 
-    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), 0 ) );
+    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), DataType() ) );
 
     std::transform( p.begin(), p.end(), p.begin(),
                     [&norm] ( DataType x )
-- 
2.43.0


From 6a96caf18fd56997227519a4abe93687cf364839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:43 +0000
Subject: [PATCH 142/148] fix: only normalize the remaining image patches

---
 src/tools/process_image_patches.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 03323e6..5cea145 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -181,7 +181,7 @@ int main( int argc, char** argv )
 
   std::cerr << "* Final processing and normalization...";
 
-  for( IndexType i = 0; i < pointCloud.size(); i++ )
+  for( IndexType i = 0; i < processedPointCloud.size(); i++ )
   {
     auto p     = processedPointCloud[i];
     auto mean  = aleph::math::accumulate_kahan_sorted( p.begin(), p.end(), DataType() );
-- 
2.43.0


From e97eebadf2232cf7411ee413d64894732b19d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:43 +0000
Subject: [PATCH 143/148] fix: keep at least one image patch

---
 src/tools/process_image_patches.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 5cea145..a384617 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -145,7 +145,9 @@ int main( int argc, char** argv )
     std::sort( contrastNorms_.begin(),
                contrastNorms_.end() );
 
-    auto threshold = contrastNorms_.at( std::size_t( std::ceil( (1.0 - contrastNormThreshold) * double( contrastNorms.size() ) ) ) );
+    // Keep at least one patch even if there are only few of them
+    auto index     = std::size_t( std::ceil( (1.0 - contrastNormThreshold) * double( contrastNorms.size() ) ) );
+    auto threshold = contrastNorms_.at( std::min( index, contrastNorms_.size() - 1 ) );
 
     auto numRemainingPatches
       = std::count_if( contrastNorms.begin(), contrastNorms.end(),
-- 
2.43.0


From 2fe7767d385edde586c4bc427af45e08b457dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:43 +0000
Subject: [PATCH 144/148] fix: write valid JSON for point clouds with a single
 point in rips_distributions

---
 src/tools/rips_distributions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/rips_distributions.cc b/src/tools/rips_distributions.cc
index 7f59f7f..dee7d77 100644
--- a/src/tools/rips_distributions.cc
+++ b/src/tools/rips_distributions.cc
@@ -178,7 +178,9 @@ int main( int argc, char** argv )
 
   if( !unweightedDegrees.empty() )
   {
-    std::cout << ",\n";
+    if( !distances.empty() )
+      std::cout << ",\n";
+
     containerAsJSON( std::cout, unweightedDegrees, "unweighted_degrees" );
   }
 
-- 
2.43.0


From eea536eaa640f67daccd1a54e5a124dd54846b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:44 +0000
Subject: [PATCH 145/148] fix: evaluate indicator functions in every
 logarithmic bin of a glyph

---
 src/tools/persistence_indicator_function_glyph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistence_indicator_function_glyph.cc b/src/tools/persistence_indicator_function_glyph.cc
index 8cca555..5d47ff7 100644
--- a/src/tools/persistence_indicator_function_glyph.cc
+++ b/src/tools/persistence_indicator_function_glyph.cc
@@ -169,7 +169,7 @@ int main( int argc, char** argv )
 
   for( unsigned i = 0; i < n; i++ )
   {
-    auto offset = ( std::log10( max ) - std::log10( min ) ) / (n-1);
+    auto offset = ( std::log10( max ) - std::log10( min ) ) / n;
     auto value  = std::log10( min ) + i * offset;
 
     logbins.push_back( value );
-- 
2.43.0


From 18407ed23a395cb755fc80d011a50850fba1c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 146/148] fix: only use edges between singular vertices for the
 inverted filter

An edge with a single singular vertex became part of the singular
stratum, which then was not a simplicial complex any more.
---
 src/tools/persistent_intersection_homology.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistent_intersection_homology.cc b/src/tools/persistent_intersection_homology.cc
index db260af..0f551b4 100644
--- a/src/tools/persistent_intersection_homology.cc
+++ b/src/tools/persistent_intersection_homology.cc
@@ -256,7 +256,7 @@ int main( int argc, char** argv )
           auto y = singularityValues.at(v);
 
           if( invert )
-            return std::max(x,y) > filterThreshold;
+            return std::min(x,y) > filterThreshold;
           else
             return std::max(x,y) < filterThreshold;
         }
-- 
2.43.0


From a5561cd895337008571495f17412817994815f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:43 +0000
Subject: [PATCH 147/148] fix: identify diagrams by their dimension in
 persistent_intersection_homology

Intersection homology may yield no diagram at all, or none for some
dimension, so diagrams of other dimensions were written, and the access
to the first diagram was invalid if there was none.
---
 src/tools/persistent_intersection_homology.cc | 56 +++++++++----------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/tools/persistent_intersection_homology.cc b/src/tools/persistent_intersection_homology.cc
index 0f551b4..fcab869 100644
--- a/src/tools/persistent_intersection_homology.cc
+++ b/src/tools/persistent_intersection_homology.cc
@@ -36,6 +36,7 @@
 #include <iostream>
 #include <numeric>
 #include <set>
+#include <string>
 #include <vector>
 
 #include <getopt.h>
@@ -295,40 +296,37 @@ int main( int argc, char** argv )
 
   std::cerr << "finished\n";
 
-  {
-    std::ofstream out0( "/tmp/D_0_PH.txt" );
-    std::ofstream out1( "/tmp/D_0_IH.txt" );
-
-    D1.front().removeDiagonal();
-    D2.front().removeDiagonal();
-
-    out0 << D1.front() << "\n";
-    out1 << D2.front() << "\n";
-  }
+  std::cerr << D1.size() << "," << D2.size() << "\n";
 
-  if( D1.size() >= 2 && D2.size() >= 2 )
+  // There is not necessarily a diagram for every dimension, so diagrams
+  // cannot be identified by their index.
+  auto hasDiagram = [] ( const std::vector<PersistenceDiagram>& diagrams, std::size_t d )
   {
-    std::ofstream out0( "/tmp/D_1_PH.txt" );
-    std::ofstream out1( "/tmp/D_1_IH.txt" );
-
-    D1[1].removeDiagonal();
-    D2[1].removeDiagonal();
-
-    out0 << D1[1] << "\n";
-    out1 << D2[1] << "\n";
-  }
-
-  std::cerr << D1.size() << "," << D2.size() << "\n";
+    return std::any_of( diagrams.begin(), diagrams.end(),
+      [&d] ( const PersistenceDiagram& D ) { return D.dimension() == d; }
+    );
+  };
 
-  if( D1.size() >= 3 && D2.size() >= 3 )
+  auto writeDiagram = [] ( const std::string& filename, const std::vector<PersistenceDiagram>& diagrams, std::size_t d )
   {
-    std::ofstream out0( "/tmp/D_2_PH.txt" );
-    std::ofstream out1( "/tmp/D_2_IH.txt" );
+    std::ofstream out( filename );
 
-    D1[2].removeDiagonal();
-    D2[2].removeDiagonal();
+    for( auto D : diagrams )
+    {
+      if( D.dimension() == d )
+      {
+        D.removeDiagonal();
+        out << D << "\n";
+      }
+    }
+  };
 
-    out0 << D1[2] << "\n";
-    out1 << D2[2] << "\n";
+  for( std::size_t d = 0; d <= 2; d++ )
+  {
+    if( d == 0 || hasDiagram( D1, d ) || hasDiagram( D2, d ) )
+    {
+      writeDiagram( "/tmp/D_" + std::to_string(d) + "_PH.txt", D1, d );
+      writeDiagram( "/tmp/D_" + std::to_string(d) + "_IH.txt", D2, d );
+    }
   }
 }
-- 
2.43.0


From af128c33fd4b9dce466e8851c4bd98ab6af0ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:46 +0000
Subject: [PATCH 148/148] fix: keep equal coordinates equal when gridding a
 persistence diagram

gridEntropy() rotated every point by a sum of two rounded products. Points
with the same death (or birth) hence obtained slightly different coordinates
and were spread over the cells of a degenerate grid.
---
 include/aleph/persistenceDiagrams/Entropy.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index 26355cb..20f9e43 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -285,8 +285,8 @@ template <class T> T gridEntropy( const aleph::PersistenceDiagram<T>& diagram, u
     auto   x = p.front();
     auto   y = p.back();
 
-    X.push_back(  0.5 * std::sqrt(2) * x + 0.5 * std::sqrt(2) * y );
-    Y.push_back( -0.5 * std::sqrt(2) * x + 0.5 * std::sqrt(2) * y );
+    X.push_back( 0.5 * std::sqrt(2) * ( y + x ) );
+    Y.push_back( 0.5 * std::sqrt(2) * ( y - x ) );
   }
 
   auto minmax_x = std::minmax_element( X.begin(), X.end() );
-- 
2.43.0

