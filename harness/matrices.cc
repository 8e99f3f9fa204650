// Symmetric and sparse matrices: all short operation sequences against maps.

#include "common.hh"

#include <aleph/math/SparseMatrix.hh>
#include <aleph/math/SymmetricMatrix.hh>

#include <map>
#include <set>
#include <sstream>

using namespace vf;
namespace m = aleph::math;

// Symmetric matrices --------------------------------------------------

struct Model
{
  unsigned n = 0;
  std::map<std::pair<unsigned,unsigned>, double> v;

  double at( unsigned i, unsigned j ) const
  {
    auto it = v.find( { std::min( i, j ), std::max( i, j ) } );
    return it == v.end() ? 0.0 : it->second;
  }
};

static std::string print( const m::SymmetricMatrix<double>& M )
{
  std::ostringstream o;
  o << M;
  return o.str();
}

static std::string print( const Model& M )
{
  std::ostringstream o;
  for( unsigned i = 0; i < M.n; i++ )
  {
    for( unsigned j = 0; j < M.n; j++ )
      o << ( j ? " " : "" ) << M.at( i, j );
    o << "\n";
  }
  return o.str();
}

template <class T, class I> static void output( const m::SymmetricMatrix<T,I>&, const Model& ) {}

static void output( const m::SymmetricMatrix<double>& M, const Model& R )
{
  H().check( print( M ) == print( R ), "symmetric-output", "output of the matrix is\n" + print( M ) );
}

template <class T, class I> static void compare( const m::SymmetricMatrix<T,I>& M, const Model& R, const char* name )
{
  H().check( M.numRows() == R.n, "symmetric-rows", cat( name, " has ", std::size_t( M.numRows() ), " rows" ) );
  H().check( M.size() == R.n * ( R.n + 1 ) / 2, "symmetric-size", cat( name, " has size ", std::size_t( M.size() ) ) );
  H().check( M.empty() == ( R.n == 0 ), "symmetric-empty", cat( name, " is ", M.empty() ? "" : "not ", "reported as empty" ) );
  auto&& W = const_cast<m::SymmetricMatrix<T,I>&>( M );
  for( unsigned i = 0; i < R.n + 2; i++ )
    for( unsigned j = 0; j < R.n + 2; j++ )
    {
      H().step();
      if( i < R.n && j < R.n )
      {
        H().check( M( I(i), I(j) ) == T( R.at( i, j ) ), "symmetric-value", cat( name, "(", i, ",", j, ") is ", double( M( I(i), I(j) ) ) ) );
        H().check( &M( I(i), I(j) ) == &M( I(j), I(i) ), "symmetric-storage", cat( name, "(", i, ",", j, ") is stored twice" ) );
        for( unsigned k = 0; k < R.n; k++ )
          for( unsigned l = k; l < R.n; l++ )
            if( std::make_pair( k, l ) != std::make_pair( std::min( i, j ), std::max( i, j ) ) )
              H().check( &M( I(i), I(j) ) != &M( I(k), I(l) ), "symmetric-aliasing", cat( name, "(", i, ",", j, ") shares its entry with (", k, ",", l, ")" ) );
        continue;
      }
      bool rejected = false, rejectedW = false;
      try { (void) M( I(i), I(j) ); } catch( std::out_of_range& ) { rejected = true; }
      try { (void) W( I(i), I(j) ); } catch( std::out_of_range& ) { rejectedW = true; }
      H().check( rejected && rejectedW, "symmetric-range", cat( name, "(", i, ",", j, ") is not rejected" ) );
    }
  output( M, R );
}

template <class T, class I> static void symmetric( const char* type, unsigned depth )
{
  using M = m::SymmetricMatrix<T,I>;

  // Operations; values are chosen from the position in the sequence
  struct Op { int kind; unsigned which, i, j; };
  std::vector<Op> ops;
  for( unsigned which = 0; which < 2; which++ )
  {
    for( unsigned n = 0; n <= 3; n++ )
      ops.push_back( { 0, which, n, 0 } );     // replace by a new matrix
    ops.push_back( { 1, which, 0, 0 } );       // replace by default matrix
    ops.push_back( { 2, which, 0, 0 } );       // assign other matrix
    ops.push_back( { 3, which, 0, 0 } );       // assign itself
    ops.push_back( { 4, which, 0, 0 } );       // move the other matrix
    ops.push_back( { 5, which, 0, 0 } );       // replace by copy of the other
    for( auto p : std::vector<std::pair<unsigned,unsigned>>{ {0,0}, {0,1}, {1,0}, {2,1}, {0,2}, {2,2} } )
      ops.push_back( { 6, which, p.first, p.second } );
  }
  ops.push_back( { 7, 0, 0, 0 } );             // swap

  for( unsigned a = 0; a <= 4; a++ )
    for( unsigned b = 0; b <= 3; b++ )
      forAllVectors( depth, unsigned( ops.size() ), [&] ( const std::vector<unsigned>& x )
      {
        if( !H().mine() )
          return;
        H().state();
        std::string text = cat( "symmetric matrices of ", type, " with ", a, " and ", b, " rows:" );
        H().guarded( "symmetric", [&]
        {
          std::vector<M> A;
          A.reserve( 2 );
          A.emplace_back( I( a ) );
          A.emplace_back( I( b ) );
          Model R[2];
          R[0].n = a;
          R[1].n = b;

          // Distinct initial values
          for( unsigned w = 0; w < 2; w++ )
            for( unsigned i = 0; i < R[w].n; i++ )
              for( unsigned j = i; j < R[w].n; j++ )
              {
                double v = 10 * w + 3 * i + j + 1;
                ( ( i + j ) % 2 ? A[w]( I(i), I(j) ) : A[w]( I(j), I(i) ) ) = T( v );
                R[w].v[ { i, j } ] = v;
              }

          unsigned position = 0;
          for( auto k : x )
          {
            auto o = ops[k];
            auto& P = A[o.which];
            auto& Q = A[1-o.which];
            double v = 50 + ++position;
            switch( o.kind )
            {
            case 0: text += cat( " new", o.which, "(", o.i, ")" ); { P = M( I( o.i ) ); } R[o.which] = Model(); R[o.which].n = o.i; break;
            case 1: text += cat( " default", o.which ); { P = M(); } R[o.which] = Model(); break;
            case 2: text += cat( " assign", o.which ); P = Q; R[o.which] = R[1-o.which]; break;
            case 3: text += cat( " self", o.which ); { auto& S = P; P = S; } break;
            // The moved-from matrix is not used any more
            case 4: text += cat( " move", o.which ); { M temporary( Q ); P = std::move( temporary ); } R[o.which] = R[1-o.which]; break;
            case 5: text += cat( " copy", o.which ); { M temporary( Q ); P.swap( temporary ); } R[o.which] = R[1-o.which]; break;
            case 6:
              text += cat( " set", o.which, "(", o.i, ",", o.j, ")" );
              if( o.i < R[o.which].n && o.j < R[o.which].n )
              {
                P( I( o.i ), I( o.j ) ) = T( v );
                R[o.which].v[ { std::min( o.i, o.j ), std::max( o.i, o.j ) } ] = v;
              }
              break;
            default: text += " swap"; A[0].swap( A[1] ); std::swap( R[0], R[1] ); break;
            }
          }
          H().setCase( text );
          compare( A[0], R[0], "A" );
          compare( A[1], R[1], "B" );
        } );
        H().trace();
      } );
}

// Larger matrices: all entries at once
template <class T, class I> static void large( unsigned n )
{
  for( unsigned k = 0; k <= n; k++ )
  {
    if( !H().mine() )
      continue;
    H().setCase( cat( "symmetric matrix with ", k, " rows" ) );
    H().state();
    H().guarded( "symmetric", [&]
    {
      m::SymmetricMatrix<T,I> M( (I)( k ) );
      Model R;
      R.n = k;
      compare( M, R, "M" );
      double v = 1;
      for( unsigned i = 0; i < k; i++ )
        for( unsigned j = 0; j <= i; j++, v++ )
        {
          M( I(i), I(j) ) = T( v );
          R.v[ { j, i } ] = v;
        }
      compare( M, R, "M" );
    } );
    H().trace();
  }
}

// Sparse matrices -----------------------------------------------------

template <class I> static void sparse( const char* type, unsigned columns, unsigned rows, unsigned depth )
{
  std::vector<std::pair<unsigned,unsigned>> cells;
  for( unsigned c = 0; c <= columns; c++ )       // one more than permitted
    for( unsigned r = 0; r < rows; r++ )
      cells.push_back( { r, c } );

  for( unsigned d = 0; d <= depth; d++ )
    forAllVectors( d, unsigned( cells.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() )
        return;
      std::string text = cat( "sparse matrix of ", type, " with ", columns, " columns:" );
      for( auto k : x )
        text += cat( " (", cells[k].first, ",", cells[k].second, ")" );
      H().setCase( text );
      H().state();
      H().guarded( "sparse", [&]
      {
        m::SparseBinaryMatrix<I> M( (I)( columns ) );
        std::set<std::pair<unsigned,unsigned>> R;
        for( auto k : x )
        {
          bool rejected = false;
          try { M.set( I( cells[k].first ), I( cells[k].second ) ); } catch( std::out_of_range& ) { rejected = true; }
          H().check( rejected == ( cells[k].second >= columns ), "sparse-set-range", "wrong columns are not rejected when setting values" );
          if( cells[k].second < columns )
            R.insert( cells[k] );
        }
        H().check( M.numColumns() == columns, "sparse-columns", "wrong number of columns" );
        auto C = M; // copies must be independent
        if( columns > 0 )
          C.set( I( rows ), I( 0 ) );
        for( unsigned c = 0; c <= columns + 1; c++ )
        {
          H().step();
          std::vector<I> expected, actual;
          for( unsigned r = 0; r < rows; r++ )
            if( R.count( { r, c } ) )
              expected.push_back( I( r ) );
          if( c < columns )
          {
            for( unsigned r = 0; r <= rows; r++ )
              H().check( M.get( I(r), I(c) ) == ( R.count( { r, c } ) > 0 ), "sparse-get", cat( "entry (", r, ",", c, ") is ", M.get( I(r), I(c) ) ) );
            M.get( I( c ), std::back_inserter( actual ) );
            std::sort( actual.begin(), actual.end() );
            H().check( actual == expected, "sparse-column", cat( "column ", c, " is ", str( actual ) ) );
            H().check( M.numEntries( I( c ) ) == expected.size(), "sparse-entries", cat( "column ", c, " has ", M.numEntries( I( c ) ), " entries" ) );
            H().check( M.getIndex( I( c ) ) == I( c ), "sparse-index", "indices change without an index map" );
            continue;
          }
          unsigned rejected = 0;
          try { M.get( I( 0 ), I( c ) ); } catch( std::out_of_range& ) { rejected++; }
          try { M.get( I( c ), std::back_inserter( actual ) ); } catch( std::out_of_range& ) { rejected++; }
          try { M.numEntries( I( c ) ); } catch( std::out_of_range& ) { rejected++; }
          H().check( rejected == 3, "sparse-range", "wrong columns are not rejected" );
        }

        if( d > 1 )
          return;

        // Index maps of every length
        for( unsigned l = 0; l <= columns + 1; l++ )
        {
          std::vector<I> indices;
          for( unsigned i = 0; i < l; i++ )
            indices.push_back( I( 7 + 3 * ( l - i ) ) );
          auto N = M;
          bool rejected = false;
          try { N.setIndices( indices.begin(), indices.end() ); } catch( std::length_error& ) { rejected = true; }
          H().check( rejected == ( l != columns ), "sparse-indices-length", cat( l, " indices ", rejected ? "rejected" : "accepted" ) );
          if( l != columns )
            continue;
          for( unsigned c = 0; c < columns; c++ )
          {
            H().check( N.getIndex( I( c ) ) == indices[c], "sparse-index-map", cat( "index of column ", c, " is wrong" ) );
            for( unsigned r = 0; r <= rows; r++ )
              H().check( N.get( I( r ), I( c ) ) == ( R.count( { r, c } ) > 0 ), "sparse-index-entries", "entries change with the index map" );
          }
          std::reverse( indices.begin(), indices.end() );
          N.setIndices( indices.begin(), indices.end() );
          for( unsigned c = 0; c < columns; c++ )
            H().check( N.getIndex( I( c ) ) == indices[c], "sparse-index-map", "index map is not replaced" );
          if( columns > 0 )
          {
            rejected = false;
            try { N.getIndex( I( columns ) ); } catch( std::out_of_range& ) { rejected = true; }
            H().check( rejected, "sparse-index-range", "wrong columns are not rejected for index maps" );
          }
        }
      } );
      H().trace();
    } );
}

// Larger sparse matrices; every pattern is set in three orders
template <class I> static void largeSparse( unsigned limit )
{
  for( unsigned columns = 4; columns <= limit; columns++ )
    for( unsigned kind = 0; kind < 5; kind++ ) for( unsigned order = 0; order < 3; order++ )
    {
      if( !H().mine() ) continue;
      H().setCase( cat( "sparse matrix with ", columns, " columns, pattern ", kind, ", order ", order ) );
      H().state();
      H().guarded( "sparse", [&]
      {
        unsigned rows = columns + 3;
        auto entry = [&] ( unsigned r, unsigned c ) { return kind == 0 ? r == c : kind == 1 ? r <= c : kind == 2 ? ( r + c ) % 3 == 0 : kind == 3 ? c % 4 == 1 : ( r ^ c ) % 5 == 2; };
        std::vector<std::pair<unsigned, unsigned>> cells;
        for( unsigned r = 0; r < rows; r++ ) for( unsigned c = 0; c < columns; c++ ) if( entry( r, c ) ) cells.push_back( { r, c } );
        if( order == 1 ) std::reverse( cells.begin(), cells.end() );
        if( order == 2 ) std::stable_sort( cells.begin(), cells.end(), [] ( std::pair<unsigned, unsigned> a, std::pair<unsigned, unsigned> b ) { return a.first * 5 % 7 < b.first * 5 % 7; } );
        m::SparseBinaryMatrix<I> M( (I)( columns ) );
        for( auto&& x : cells ) M.set( I( x.first ), I( x.second ) );
        std::vector<I> indices;
        for( unsigned c = 0; c < columns; c++ ) indices.push_back( I( ( 2 * columns - c ) % 120 ) );
        if( order ) M.setIndices( indices.begin(), indices.end() );
        H().check( M.numColumns() == columns, "sparse-columns", "wrong number of columns" );
        for( unsigned c = 0; c < columns; c++ )
        {
          H().step();
          std::vector<I> expected, actual;
          for( unsigned r = 0; r < rows; r++ )
          {
            if( entry( r, c ) ) expected.push_back( I( r ) );
            H().check( M.get( I(r), I(c) ) == entry( r, c ), "sparse-get", cat( "entry (", r, ",", c, ") is ", M.get( I(r), I(c) ) ) );
          }
          M.get( I( c ), std::back_inserter( actual ) );
          std::sort( actual.begin(), actual.end() );
          H().check( actual == expected, "sparse-column", cat( "column ", c, " is wrong" ) );
          H().check( M.numEntries( I( c ) ) == expected.size(), "sparse-entries", cat( "column ", c, " has ", M.numEntries( I( c ) ), " entries" ) );
          H().check( M.getIndex( I( c ) ) == ( order ? indices[c] : I( c ) ), "sparse-index", cat( "index of column ", c, " is wrong" ) );
        }
      } );
      H().trace();
    }
}

void explore()
{
  largeSparse<unsigned>( H().thorough ? 60 : 30 );
  largeSparse<unsigned char>( 30 );
  for( unsigned d = 0; d <= ( H().thorough ? 3u : 2u ); d++ )
  {
    symmetric<double, std::size_t>( "double", d );
    if( d <= 2 )
      symmetric<int, unsigned char>( "int", d );
    if( d <= 1 )
      symmetric<float, int>( "float", d );
  }
  large<double, std::size_t>( H().thorough ? 24 : 12 );
  large<int, unsigned short>( 12 );
  for( unsigned c = 0; c <= 3; c++ )
  {
    sparse<unsigned>( "unsigned", c, 3, c < 3 ? 4 : ( H().thorough ? 5 : 4 ) );
    sparse<std::size_t>( "size_t", c, 2, 3 );
    sparse<short>( "short", c, 2, 3 );
    sparse<unsigned char>( "unsigned char", c, 2, 3 );
  }
}
