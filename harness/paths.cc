// Shortest paths in all small weighted graphs.

#include "big.hh"

#include <aleph/topology/FloydWarshall.hh>

using namespace vf;

template <class T> void run( unsigned n, const std::vector<unsigned>& vertices, const std::map<Mask, int>& edges, T w, bool defaultWeight, bool edgesFirst, const char* name )
{
  using S  = aleph::topology::Simplex<T, unsigned>;
  using K_ = aleph::topology::SimplicialComplex<S>;

  std::string text = cat( name, defaultWeight ? cat( " default=", w ) : std::string(), " vertices ", str( vertices ), " edges" );
  for( auto&& e : edges ) text += " " + strMask( e.first ) + ":" + str( e.second );
  H().setCase( text );
  H().state();
  H().guarded( "distances", [&]
  {
    std::vector<S> s;
    for( auto v : vertices ) s.push_back( S( v ) );
    std::vector<S> t;
    for( auto&& e : edges ) t.push_back( toSimplex<S>( e.first, T( e.second ) ) );
    if( edgesFirst ) s.insert( s.begin(), t.begin(), t.end() ); else s.insert( s.end(), t.begin(), t.end() );
    K_ K( s.begin(), s.end() );

    // Lengths of all simple paths
    const long NONE = 1000000;
    std::vector< std::vector<long> > A( n, std::vector<long>( n, NONE ) ), D( n, std::vector<long>( n, NONE ) );
    for( auto&& e : edges )
    {
      auto v = verts( e.first );
      std::size_t a = std::size_t( std::find( vertices.begin(), vertices.end(), v[0] ) - vertices.begin() ), b = std::size_t( std::find( vertices.begin(), vertices.end(), v[1] ) - vertices.begin() );
      A[a][b] = A[b][a] = e.second ? e.second : ( defaultWeight ? long( w ) : 0 );
    }
    // In larger graphs by relaxing all edges as often as there are vertices
    for( unsigned i = 0; i < n && n > 6; i++ )
    {
      D[i][i] = 0;
      for( unsigned round = 0; round < n; round++ )
        for( unsigned a = 0; a < n; a++ ) for( unsigned b = 0; b < n; b++ )
          if( D[i][a] < NONE && A[a][b] < NONE ) D[i][b] = std::min( D[i][b], D[i][a] + A[a][b] );
    }
    for( unsigned i = 0; i < n && n <= 6; i++ )
    {
      std::vector<char> used( n, 0 );
      std::function<void( unsigned, long )> walk = [&] ( unsigned v, long d )
      {
        D[i][v] = std::min( D[i][v], d );
        used[v] = 1;
        for( unsigned u = 0; u < n; u++ ) if( !used[u] && A[v][u] < NONE ) walk( u, d + A[v][u] );
        used[v] = 0;
      };
      walk( i, 0 );
    }
    auto M = defaultWeight ? aleph::topology::floydWarshall( K, w ) : aleph::topology::floydWarshall( K );
    H().step();
    T inf = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
    H().check( unsigned( M.numRows() ) == n, "size", cat( "matrix has ", M.numRows(), " rows" ) );
    for( unsigned i = 0; i < n && unsigned( M.numRows() ) == n; i++ )
      for( unsigned j = 0; j < n; j++ )
      {
        T e = D[i][j] == NONE ? inf : T( D[i][j] );
        H().check( M( i, j ) == e, "distance", cat( "distance from ", i, " to ", j, " should be ", e, ", got ", M( i, j ) ) );
      }
    H().trace();
    H().sample();
  } );
}

// values: weight per state of an edge, -1 for a missing edge
static void graphs( unsigned n, const std::vector<int>& values )
{
  auto E = allEdges( n );
  forAllVectors( E.size(), unsigned( values.size() ), [&] ( const std::vector<unsigned>& x )
  {
    if( !H().mine() ) return;
    std::map<Mask, int> plain, sparse;
    std::vector<unsigned> a, b;
    for( unsigned i = 0; i < n; i++ ) { a.push_back( i ); b.push_back( 3 * ( n - i ) - 1 ); }
    for( std::size_t i = 0; i < E.size(); i++ )
      if( values[ x[i] ] >= 0 )
      {
        plain[ ( Mask(1) << E[i].u ) | ( Mask(1) << E[i].v ) ] = values[ x[i] ];
        sparse[ ( Mask(1) << b[ E[i].u ] ) | ( Mask(1) << b[ E[i].v ] ) ] = values[ x[i] ];
      }
    run<double>( n, a, plain, 0, false, false, "double" );
    run<double>( n, b, sparse, 2, true, true, "double, identifiers with gaps" );
    run<int>( n, b, sparse, 4, true, false, "int" );
  } );
}

void explore()
{
  // Families of larger graphs
  bigGraphs( 31, [&] ( const std::string&, unsigned n, const std::vector< std::pair<unsigned, unsigned> >& edges )
  {
    for( unsigned kind = 0; kind < 4; kind++ )
    {
      if( !H().mine() ) continue;
      std::vector<unsigned> v;
      std::map<Mask, int> e;
      auto id = [&] ( unsigned i ) { return kind == 1 ? n - 1 - i : kind == 2 ? ( i * 7 + 3 ) % 31 : i; };
      for( unsigned i = 0; i < n; i++ ) v.push_back( id( i ) );
      for( std::size_t i = 0; i < edges.size(); i++ )
        e[ ( Mask(1) << id( edges[i].first ) ) | ( Mask(1) << id( edges[i].second ) ) ] = kind == 0 ? 1 : int( ( i * i * 7 + 3 ) % 11 );
      if( kind == 3 ) run<int>( n, v, e, 4, true, false, "int" );
      else run<double>( n, v, e, 2, kind == 2, kind == 1, "double" );
    }
  } );
  graphs( 0, { 1 } );
  graphs( 1, { 1 } );
  graphs( 2, { -1, 0, 1, 3, 7 } );
  graphs( 3, { -1, 0, 1, 2, 3, 7 } );
  graphs( 4, { -1, 0, 1, 2, 5 } );
  graphs( 5, H().thorough ? std::vector<int>{ -1, 1, 3 } : std::vector<int>{ -1, 1 } );
  if( !H().thorough ) // one weight per edge, all graphs: longest paths matter
  {
    auto E = allEdges( 5 );
    for( Mask m = 0; m < 1024; m++ )
    {
      if( !H().mine() ) continue;
      std::map<Mask, int> e;
      for( std::size_t i = 0; i < E.size(); i++ ) if( m >> i & 1 ) e[ ( Mask(1) << E[i].u ) | ( Mask(1) << E[i].v ) ] = 1 + int( ( i * i * 7 + 3 * m ) % 11 );
      run<double>( 5, { 0, 1, 2, 3, 4 }, e, 0, false, false, "double" );
    }
  }
}
