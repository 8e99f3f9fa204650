// Persistence diagrams under all edit histories.

#include "pd.hh"

#include <sstream>

using namespace vf;

template <class T> struct Explorer
{
  using D_ = aleph::PersistenceDiagram<T>;

  std::string name;
  Pairs alphabet;

  void compare( const D_& D, const Pairs& m, std::size_t dimension )
  {
    H().check( toPairs( D ) == m, "points", cat( "points should be ", show( m ), ", got ", show( toPairs( D ) ) ) );
    H().check( D.size() == m.size(), "size", cat( "size should be ", m.size(), ", got ", D.size() ) );
    H().check( D.empty() == m.empty(), "empty", "emptiness is wrong" );
    std::size_t b = 0;
    for( auto&& p : m ) b += p.second == INF;
    H().check( D.betti() == b, "betti", cat( "Betti number should be ", b, ", got ", D.betti() ) );
    H().check( D.dimension() == dimension, "dimension", cat( "dimension should be ", dimension, ", got ", D.dimension() ) );
    std::size_t i = 0;
    for( auto&& p : D )
    {
      if( i >= m.size() ) break;
      auto&& e = m[i++];
      if( e.second != INF ) H().check( double( p.persistence() ) == e.second - e.first, "persistence", "persistence is wrong" );
      else if( std::numeric_limits<T>::has_infinity ) H().check( double( p.persistence() ) == INF, "persistence", "persistence of an unpaired point is wrong" );
      H().check( p.isUnpaired() == ( e.second == INF ), "unpaired", "unpairedness is wrong" );
    }
  }

  // All operations on a diagram with the given points
  void operations( const Pairs& m, std::size_t dimension )
  {
    auto run = [&] ( const std::string& what, std::function<void( D_& )> f, std::function<void( Pairs& )> g, bool sorted = false )
    {
      H().setCase( cat( name, " ", show( m ), " then ", what ) );
      H().guarded( "operation", [&]
      {
        auto D = toDiagram<T>( m, dimension );
        Pairs e = m;
        f( D );
        g( e );
        H().step();
        if( sorted )
        {
          // The order of the remaining points is unspecified
          auto p = toPairs( D );
          std::sort( p.begin(), p.end() );
          std::sort( e.begin(), e.end() );
          compare( toDiagram<T>( p, D.dimension() ), e, dimension );
          H().check( D.size() == e.size() && D.empty() == e.empty(), "size", "size is wrong" );
        }
        else
          compare( D, e, dimension );
      } );
    };
    auto none = [] ( D_& ) {};
    run( "nothing", none, [] ( Pairs& ) {} );
    for( auto&& p : alphabet )
      run( "add " + show( { p } ), [&] ( D_& D ) { p.second == INF ? D.add( T( p.first ) ) : D.add( T( p.first ), T( p.second ) ); }, [&] ( Pairs& e ) { e.push_back( p ); } );
    run( "removeDiagonal",   [] ( D_& D ) { D.removeDiagonal(); },   [] ( Pairs& e ) { e.erase( std::remove_if( e.begin(), e.end(), [] ( const Pair& p ) { return p.first == p.second; } ), e.end() ); } );
    run( "removeUnpaired",   [] ( D_& D ) { D.removeUnpaired(); },   [] ( Pairs& e ) { e.erase( std::remove_if( e.begin(), e.end(), [] ( const Pair& p ) { return p.second == INF; } ), e.end() ); } );
    run( "removeDuplicates", [] ( D_& D ) { D.removeDuplicates(); }, [] ( Pairs& e ) { std::set<Pair> s( e.begin(), e.end() ); e.assign( s.begin(), s.end() ); }, true );
    for( std::size_t i = 0; i < m.size(); i++ )
    {
      run( cat( "erase ", i ), [&] ( D_& D ) { auto it = D.erase( D.begin() + long( i ) ); H().check( it - D.begin() == long( i ), "erase", "wrong iterator after erasure" ); }, [&] ( Pairs& e ) { e.erase( e.begin() + long( i ) ); } );
      for( std::size_t j = i; j <= m.size(); j++ )
        run( cat( "erase ", i, "..", j ), [&] ( D_& D ) { D.erase( D.begin() + long( i ), D.begin() + long( j ) ); }, [&] ( Pairs& e ) { e.erase( e.begin() + long( i ), e.begin() + long( j ) ); } );
    }
    for( std::size_t i = 0; i <= m.size(); i++ )
    {
      Pairs x = { alphabet[0], alphabet.back() };
      auto X = toDiagram<T>( x );
      run( cat( "insert at ", i ), [&] ( D_& D ) { D.insert( D.begin() + long( i ), X.begin(), X.end() ); }, [&] ( Pairs& e ) { e.insert( e.begin() + long( i ), x.begin(), x.end() ); } );
    }
  }

  void pairs( const Pairs& a, const Pairs& b )
  {
    H().setCase( cat( name, " ", show( a ), " and ", show( b ) ) );
    H().state();
    H().guarded( "pair", [&]
    {
      auto A = toDiagram<T>( a ), B = toDiagram<T>( b, 3 );
      H().step( 2 );
      H().check( ( A == B ) == ( a == b ) && ( A != B ) == ( a != b ), "equality", "equality is wrong" );
      A.merge( B );
      Pairs e = a;
      e.insert( e.end(), b.begin(), b.end() );
      compare( A, e, 0 );
      compare( B, b, 3 );
    } );
  }

  // Histories of non-trivial edits, applied to one object
  void histories( std::size_t depth )
  {
    std::vector<unsigned> ops;
    std::function<void()> rec = [&]
    {
      if( ops.size() == depth )
      {
        if( !H().mine() ) return;
        H().setCase( cat( name, " history ", str( ops ) ) );
        H().state();
        H().guarded( "history", [&]
        {
          D_ D, copy;
          Pairs m, copied;
          std::size_t dimension = 0;
          for( auto x : ops )
          {
            if( x < alphabet.size() )
            {
              auto&& p = alphabet[x];
              p.second == INF ? D.add( T( p.first ) ) : D.add( T( p.first ), T( p.second ) );
              m.push_back( p );
            }
            else switch( x - alphabet.size() )
            {
            case 0: D.removeDiagonal();   m.erase( std::remove_if( m.begin(), m.end(), [] ( const Pair& p ) { return p.first == p.second; } ), m.end() ); break;
            case 1: D.removeUnpaired();   m.erase( std::remove_if( m.begin(), m.end(), [] ( const Pair& p ) { return p.second == INF; } ), m.end() ); break;
            case 2:
            {
              D.removeDuplicates();
              std::set<Pair> s( m.begin(), m.end() );
              auto g = toPairs( D );
              H().check( std::multiset<Pair>( g.begin(), g.end() ) == std::multiset<Pair>( s.begin(), s.end() ), "duplicates", "removal of duplicates is wrong" );
              m = g;
              break;
            }
            case 3: if( !m.empty() ) { D.erase( D.begin() ); m.erase( m.begin() ); } break;
            case 4: D.setDimension( ++dimension ); break;
            case 5: D.merge( copy ); m.insert( m.end(), copied.begin(), copied.end() ); copy = D; copied = m; break;
            }
            H().step();
            compare( D, m, dimension );
          }
          H().trace();
          H().sample();
        } );
        return;
      }
      for( unsigned x = 0; x < alphabet.size() + 6; x++ ) { ops.push_back( x ); rec(); ops.pop_back(); }
    };
    rec();
  }

  void points()
  {
    using P = typename D_::Point;
    H().setCase( name + " points" );
    for( auto&& a : alphabet )
      for( auto&& b : alphabet )
      {
        P p = a.second == INF ? P( T( a.first ) ) : P( T( a.first ), T( a.second ) ), q = b.second == INF ? P( T( b.first ) ) : P( T( b.first ), T( b.second ) );
        H().step( 3 );
        H().check( ( p == q ) == ( a == b ) && ( p != q ) == ( a != b ) && ( p < q ) == ( a < b ), "order", cat( "comparison of ", show( { a } ), " and ", show( { b } ), " is wrong" ) );
      }
    std::ostringstream o;
    auto D = toDiagram<T>( { { 1, 2 }, { 0, 3 } } );
    o << D;
    H().check( o.str() == "1\t2\n0\t3\n", "output", "text representation is wrong: " + o.str() );
  }

  // Families of larger diagrams, with unpaired and repeated points
  void large()
  {
    bigDiagrams( H().thorough ? 60 : 30, [&] ( const std::string&, Pairs p )
    {
      for( unsigned kind = 0; kind < 4; kind++ )
      {
        if( !H().mine() ) continue;
        Pairs m = p;
        for( auto&& x : m ) { x.first = std::floor( x.first ); x.second = std::floor( x.second ); }
        if( kind & 1 ) for( std::size_t i = 0; i < m.size(); i += 3 ) m[i].second = INF;
        if( kind & 2 ) { auto c = m; m.insert( m.end(), c.rbegin(), c.rend() ); }
        H().state();
        H().setCase( cat( name, " large ", show( m ) ) );
        H().guarded( "large", [&]
        {
          compare( toDiagram<T>( m, 7 ), m, 7 );
          Pairs e = m;
          auto D = toDiagram<T>( m, 2 );
          D.removeDiagonal();
          e.erase( std::remove_if( e.begin(), e.end(), [] ( const Pair& x ) { return x.first == x.second; } ), e.end() );
          compare( D, e, 2 );
          e = m;
          D = toDiagram<T>( m, 2 );
          D.removeUnpaired();
          e.erase( std::remove_if( e.begin(), e.end(), [] ( const Pair& x ) { return x.second == INF; } ), e.end() );
          compare( D, e, 2 );
          D = toDiagram<T>( m, 2 );
          D.removeDuplicates();
          std::set<Pair> s( m.begin(), m.end() );
          auto g = toPairs( D );
          H().check( std::multiset<Pair>( g.begin(), g.end() ) == std::multiset<Pair>( s.begin(), s.end() ), "duplicates", "removal of duplicates is wrong" );
          D = toDiagram<T>( m, 2 );
          D.merge( toDiagram<T>( p, 1 ) );
          H().check( D.size() == m.size() + p.size(), "merge", "wrong size after merging" );
          auto A = toDiagram<T>( m ), B = toDiagram<T>( m );
          for( std::size_t i = 0; i < m.size(); i++ )
          {
            Pairs n = m;
            n[i].first += 1;
            H().check( A == B && A != toDiagram<T>( n ), "equality", cat( "a difference in point ", i, " is not noticed" ) );
          }
          H().step( 5 );
        } );
        H().trace();
      }
    } );
  }

  void run()
  {
    points();
    large();
    // All sequences of points
    std::vector<Pairs> sequences;
    for( std::size_t n = 0; n <= ( H().thorough ? 5 : 4 ); n++ )
      forAllVectors( n, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x ) { Pairs p; for( auto i : x ) p.push_back( alphabet[i] ); sequences.push_back( p ); } );
    for( auto&& m : sequences )
    {
      if( !H().mine() ) continue;
      H().state();
      operations( m, m.size() );
      H().trace();
    }
    for( auto&& a : sequences )
      if( a.size() <= 2 )
        for( auto&& b : sequences )
          if( b.size() <= 2 && H().mine() ) pairs( a, b );
    histories( H().thorough ? 5 : 4 );
  }
};

void explore()
{
  Explorer<double>{ "double", { { 0, 1 }, { 0.5, 0.5 }, { -1, INF }, { -1, 2.5 }, { 1, 0 } } }.run();
  Explorer<int>{ "int", { { 0, 1 }, { 2, 2 }, { -1, INF }, { 3, 2 } } }.run();
  Explorer<float>{ "float", { { 0, 1 }, { 2, 2 }, { 0, INF }, { 1, INF } } }.run();
}
