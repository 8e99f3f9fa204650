// Cover trees under all insertion sequences of small points.

#include "common.hh"

#include <aleph/geometry/CoverTree.hh>

using namespace vf;

struct Line
{
  double operator()( double a, double b ) const { return std::fabs( a - b ); }
};

struct P2
{
  int x, y;
  bool operator< ( const P2& o ) const { return x != o.x ? x < o.x : y < o.y; }
  bool operator==( const P2& o ) const { return x == o.x && y == o.y; }
};
std::ostream& operator<<( std::ostream& o, const P2& p ) { return o << "(" << p.x << "," << p.y << ")"; }

struct Plane
{
  double operator()( const P2& a, const P2& b ) const { return std::sqrt( double( ( a.x - b.x ) * ( a.x - b.x ) + ( a.y - b.y ) * ( a.y - b.y ) ) ); }
};

template <class Node, class Metric, class P> void structure( const Node& n, std::vector<P>& out )
{
  out.push_back( n._point );
  double cover = std::pow( 2.0, double( n._level ) );
  for( std::size_t i = 0; i < n._children.size(); i++ )
  {
    auto&& c = *n._children[i];
    H().check( c._level == n._level - 1, "level", cat( "child ", str( c._point ), " of ", str( n._point ), " has level ", c._level, " instead of ", n._level - 1 ) );
    H().check( Metric()( n._point, c._point ) <= cover, "covering", cat( str( c._point ), " is not covered by ", str( n._point ) ) );
    for( std::size_t j = 0; j < i; j++ )
      H().check( Metric()( c._point, n._children[j]->_point ) > cover / 2, "separation", cat( str( c._point ), " and ", str( n._children[j]->_point ), " are not separated" ) );
    structure<Node, Metric>( c, out );
  }
}

template <class P, class Metric> void run( const std::vector<P>& seq )
{
  H().setCase( "insert " + str( seq ) );
  H().state();
  H().guarded( "insertion", [&]
  {
    using Tree = aleph::geometry::CoverTree<P, Metric>;
    Tree t, u;
    for( auto&& p : seq ) { t.insert( p ); H().step(); }
    u.insert( seq.begin(), seq.end() );

    std::vector<P> expected = seq;
    std::sort( expected.begin(), expected.end() );

    for( Tree* tree : { &t, &u } )
    {
      H().check( tree->isValid(), "valid", "tree reports to be invalid" );
      H().check( tree->checkLevelInvariant() && tree->checkCoveringInvariant() && tree->checkSeparatingInvariant(), "valid", "tree reports a violated invariant" );
      auto points = tree->points();
      std::sort( points.begin(), points.end() );
      H().check( points == expected, "points", cat( "tree contains ", str( points ) ) );

      auto levels = tree->nodesToLevel();
      auto byLevel = tree->getNodesByLevel();
      H().check( levels.size() == expected.size() && byLevel.size() == expected.size(), "levels", "listings by level are incomplete" );
      std::multimap<long, P> inverse;
      std::set< std::pair<long, P> > a, b;
      for( auto&& p : levels )  a.insert( { p.second, p.first } );
      for( auto&& p : byLevel ) b.insert( { p.first, p.second } );
      H().check( a == b, "levels", "listings by level disagree" );
      if( seq.empty() ) { H().check( tree->level() == 0, "levels", "level of the empty tree" ); continue; }
      // The root is the only node of the highest level; every other node is
      // covered by a node one level above.
      H().check( byLevel.count( tree->level() ) == 1 && byLevel.rbegin()->first == tree->level(), "levels", "level of the tree is not the level of its root" );
      for( auto&& p : byLevel )
      {
        if( p.first == tree->level() ) continue;
        bool covered = false;
        auto range = byLevel.equal_range( p.first + 1 );
        for( auto it = range.first; it != range.second; ++it )
          covered = covered || Metric()( it->second, p.second ) <= std::pow( 2.0, double( p.first + 1 ) );
        H().check( covered, "covering", cat( str( p.second ), " at level ", p.first, " is not covered" ) );
      }
    }

    // Structure of the nodes
    if( !seq.empty() )
    {
      typename Tree::Node root( seq.front(), 0 );
      for( std::size_t i = 1; i < seq.size(); i++ ) root.insert( seq[i] );
      std::vector<P> out;
      structure<typename Tree::Node, Metric>( root, out );
      std::sort( out.begin(), out.end() );
      H().check( out == expected, "points", cat( "nodes contain ", str( out ) ) );
      H().check( root._level == t.level(), "levels", "level of the root differs" );
    }
    H().trace();
    H().sample();
  } );
}

template <class P, class Metric> void sequences( const std::vector<P>& alphabet, std::size_t maximum )
{
  std::vector<P> seq;
  std::vector<char> used( alphabet.size(), 0 );
  std::function<void()> rec = [&]
  {
    if( seq.size() == 2 && !H().mine() ) return;
    if( seq.size() >= 2 || H().shard == 0 ) run<P, Metric>( seq );
    if( seq.size() == maximum ) return;
    for( std::size_t i = 0; i < alphabet.size(); i++ )
    {
      if( used[i] ) continue;
      used[i] = 1;
      seq.push_back( alphabet[i] );
      rec();
      seq.pop_back();
      used[i] = 0;
    }
  };
  rec();
}

void explore()
{
  // Longer histories
  for( unsigned n = 7; n <= ( H().thorough ? 120u : 70u ); n++ )
    for( unsigned kind = 0; kind < 5; kind++ )
    {
      if( !H().mine() ) continue;
      std::vector<double> line;
      std::vector<P2> plane;
      for( unsigned i = 0; i < n; i++ )
      {
        unsigned k = kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? ( i * 53 + 7 ) % 211 : kind == 3 ? ( i % 2 ? i / 2 : n - i / 2 ) : i * i;
        line.push_back( kind == 2 ? k / 8.0 : double( k ) );
        plane.push_back( { int( k % 9 ), int( k / 9 ) } );
      }
      if( std::set<double>( line.begin(), line.end() ).size() == n ) run<double, Line>( line );
      if( std::set<P2>( plane.begin(), plane.end() ).size() == n ) run<P2, Plane>( plane );
    }

  bool t = H().thorough;
  sequences<double, Line>( { 0, 1, 2, 3, 5, 8, 16 }, t ? 7 : 5 );
  sequences<double, Line>( { 0, 0.25, 0.75, 1, 1.5, 4 }, 6 );
  sequences<double, Line>( { -100, -7, -1, 0, 0.125, 50 }, t ? 6 : 5 );
  for( int e : { -40, -20, -6, 10, 40 } )
  {
    std::vector<double> alphabet = { 0, 1, 1.5, 3, 8 };
    for( auto& x : alphabet ) x *= std::ldexp( 1, e );
    sequences<double, Line>( alphabet, 5 );
  }
  std::vector<P2> grid;
  for( int x : { 0, 1, 4 } ) for( int y : { 0, 2, 3 } ) grid.push_back( { x, y } );
  sequences<P2, Plane>( grid, t ? 5 : 4 );
}
