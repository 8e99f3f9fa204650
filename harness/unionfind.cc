// Disjoint-set forest: all histories of merges and path-compressing queries
// against a naive labelling.

#include "common.hh"

#include <aleph/topology/UnionFind.hh>

using namespace vf;

template <class V> V item( unsigned i );
template <> unsigned    item<unsigned>( unsigned i )    { return 3 * i; }
template <> unsigned char item<unsigned char>( unsigned i ) { return static_cast<unsigned char>( 255 - i ); }
template <> int         item<int>( unsigned i )         { return 2 - int( i ); }
template <> std::string item<std::string>( unsigned i ) { return i ? std::string( i, 'x' ) : std::string(); }

template <class V> void final( aleph::topology::UnionFind<V>& u, const std::vector<unsigned>& label )
{
  unsigned n = unsigned( label.size() );
  for( unsigned i = 0; i < n; i++ )
  {
    H().check( u.contains( item<V>( i ) ), "contains", cat( "element ", i, " is missing" ) );
    H().check( u.find( item<V>( i ) ) == item<V>( label[i] ), "find", cat( "representative of ", i, " should be ", label[i] ) );
  }
  std::vector<V> roots;
  u.roots( std::back_inserter( roots ) );
  std::vector<V> expected;
  for( unsigned i = 0; i < n; i++ ) if( label[i] == i ) expected.push_back( item<V>( i ) );
  std::sort( roots.begin(), roots.end() );
  std::sort( expected.begin(), expected.end() );
  H().check( roots == expected, "roots", cat( "wrong representatives ", str( roots ) ) );
  for( unsigned i = 0; i < n; i++ )
  {
    std::vector<V> members, m;
    u.get( item<V>( i ), std::back_inserter( members ) );
    for( unsigned k = 0; k < n; k++ ) if( label[k] == label[i] ) m.push_back( item<V>( k ) );
    std::sort( members.begin(), members.end() );
    std::sort( m.begin(), m.end() );
    H().check( members == m, "get", cat( "wrong members of the set of ", i, ": ", str( members ) ) );
  }
  H().check( !u.contains( item<V>( n ) ), "contains", "unknown element is reported as present" );
  bool thrown = false;
  try { u.find( item<V>( n ) ); } catch( const std::exception& ) { thrown = true; }
  H().check( thrown, "unknown", "looking up an unknown element succeeds" );
  H().check( !u.contains( item<V>( n ) ), "unknown", "looking up an unknown element adds it" );
}

template <class V> void histories( unsigned n, unsigned depth, const char* name )
{
  unsigned base = n * n + 2 * n; // merges (also trivial ones), find, get
  std::vector<unsigned> prefix;
  std::function<void()> rec = [&]
  {
    if( prefix.size() == 2 && !H().mine() ) return;
    if( prefix.size() >= 2 || H().shard == 0 )
    {
      std::string text = cat( name, " n=", n );
      for( auto o : prefix )
        text += o < n * n ? cat( " merge(", o / n, ",", o % n, ")" ) : o < n * n + n ? cat( " find(", o - n * n, ")" ) : cat( " get(", o - n * n - n, ")" );
      H().setCase( text );
      H().state();
      H().guarded( "history", [&]
      {
        std::vector<V> items;
        for( unsigned i = 0; i < n; i++ ) items.push_back( item<V>( i ) );
        aleph::topology::UnionFind<V> u( items.begin(), items.end() );
        std::vector<unsigned> label( n );
        for( unsigned i = 0; i < n; i++ ) label[i] = i;
        for( auto o : prefix )
        {
          H().step();
          if( o < n * n )
          {
            u.merge( item<V>( o / n ), item<V>( o % n ) );
            unsigned a = label[o/n], b = label[o%n];
            for( auto& l : label ) if( l == a ) l = b;
          }
          else if( o < n * n + n )
            H().check( u.find( item<V>( o - n * n ) ) == item<V>( label[ o - n * n ] ), "find", cat( "wrong representative of ", o - n * n ) );
          else
          {
            std::vector<V> members;
            u.get( item<V>( o - n * n - n ), std::back_inserter( members ) );
            H().check( members.size() == std::size_t( std::count( label.begin(), label.end(), label[ o - n * n - n ] ) ), "get", "wrong number of members" );
          }
        }
        final( u, label );
        H().trace();
        H().sample();
      } );
    }
    if( prefix.size() == depth ) return;
    for( unsigned o = 0; o < base; o++ )
    {
      prefix.push_back( o );
      rec();
      prefix.pop_back();
    }
  };
  rec();
}

// All complete merge orders, i.e. sequences of merges of different sets, which
// reach the longest possible chains.
static void chains( unsigned n )
{
  std::vector<unsigned> seq, label( n );
  for( unsigned i = 0; i < n; i++ ) label[i] = i;
  std::function<void( std::vector<unsigned> )> rec = [&] ( std::vector<unsigned> l )
  {
    bool any = false;
    for( unsigned a = 0; a < n; a++ )
      for( unsigned b = 0; b < n; b++ )
      {
        if( l[a] == l[b] ) continue;
        any = true;
        if( seq.empty() && !H().mine() ) continue;
        auto next = l;
        for( auto& x : next ) if( x == l[a] ) x = l[b];
        seq.push_back( a * n + b );
        rec( next );
        seq.pop_back();
      }
    if( !any )
    {
      std::string text = cat( "chain n=", n );
      for( auto o : seq ) text += cat( " ", o / n, "->", o % n );
      H().setCase( text );
      H().state();
      H().guarded( "history", [&]
      {
        std::vector<int> items;
        for( unsigned i = 0; i < n; i++ ) items.push_back( item<int>( i ) );
        aleph::topology::UnionFind<int> u( items.begin(), items.end() );
        for( auto o : seq ) { u.merge( item<int>( o / n ), item<int>( o % n ) ); H().step(); }
        final( u, l );
        H().trace();
        H().sample();
      } );
    }
  };
  rec( label );
}

// Long histories: chains, stars, tournaments and mixtures of them
template <class V> void large( unsigned n, unsigned kind, const char* name )
{
  std::vector< std::pair<unsigned, unsigned> > merges;
  for( unsigned i = 0; i + 1 < n; i++ )
  {
    if( kind == 0 )      merges.push_back( { i, i + 1 } );
    else if( kind == 1 ) merges.push_back( { i + 1, i } );
    else if( kind == 2 ) merges.push_back( { 0, i + 1 } );
    else if( kind == 3 ) merges.push_back( { i + 1, 0 } );
    else if( kind == 4 ) merges.push_back( { ( i * 37 + 11 ) % n, ( i * 53 + 5 ) % n } );
  }
  if( kind == 5 ) for( unsigned s = 1; s < n; s *= 2 ) for( unsigned i = 0; i + s < n; i += 2 * s ) merges.push_back( { i, i + s } );
  if( kind == 6 ) for( unsigned s = 1; s < n; s *= 2 ) for( unsigned i = 0; i + s < n; i += 2 * s ) merges.push_back( { std::min( i + 2 * s - 1, n - 1 ), i + s - 1 } );
  H().setCase( cat( name, " n=", n, " history ", kind ) );
  if( H().skip() ) return;
  H().state();
  H().guarded( "history", [&]
  {
    std::vector<V> items;
    for( unsigned i = 0; i < n; i++ ) items.push_back( item<V>( i ) );
    aleph::topology::UnionFind<V> u( items.begin(), items.end() ), half( items.begin(), items.end() );
    std::vector<unsigned> label( n );
    for( unsigned i = 0; i < n; i++ ) label[i] = i;
    for( std::size_t k = 0; k < merges.size(); k++ )
    {
      u.merge( item<V>( merges[k].first ), item<V>( merges[k].second ) );
      unsigned a = label[ merges[k].first ], b = label[ merges[k].second ];
      for( auto& l : label ) if( l == a ) l = b;
      H().step();
      if( k == merges.size() / 2 )
      {
        auto copy = u;
        final( copy, label );
      }
    }
    final( u, label );
    H().trace();
  } );
}

void explore()
{
  for( unsigned n : { 256u, 257u, 300u } ) for( unsigned kind = 0; kind < 7; kind++ ) if( H().mine() ) large<unsigned>( n, kind, "unsigned" );
  for( unsigned n = 5; n <= 130; n++ ) for( unsigned kind = 0; kind < 7; kind++ )
    if( H().mine() )
    {
      if( n % 3 ) large<unsigned>( n, kind, "unsigned" );
      else if( n <= 64 ) large<std::string>( n, kind, "string" );
      else large<unsigned char>( n, kind, "char" );
    }
  histories<unsigned>( 2, H().thorough ? 6 : 5, "unsigned" );
  histories<unsigned>( 3, H().thorough ? 5 : 4, "unsigned" );
  histories<int>( 4, H().thorough ? 4 : 3, "int" );
  histories<std::string>( 3, 3, "string" );
  chains( 4 );
  if( H().thorough ) chains( 5 );
}
