// Combination and permutation enumerators (P42): every range length, every
// number of selected elements, every stopping point.
#include "common.hh"

#include <aleph/math/Combinations.hh>

#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <vector>

using namespace vf;
namespace am = aleph::math;

using V = std::vector<int>;

enum Kind { Combination, Permutation, Circular, Reversible, ReversibleCircular };
static const char* kindName[] = { "combination", "permutation", "circular permutation", "reversible permutation", "reversible circular permutation" };

// Canonical representative of the class of an arrangement
static V canonical( Kind kind, V v )
{
  if( kind == Permutation )
    return v;
  if( kind == Combination )
  {
    std::sort( v.begin(), v.end() );
    return v;
  }

  V best = v;
  for( int flip = 0; flip < 2; flip++ )
  {
    if( flip && kind == Circular )
      break;
    V w = v;
    if( flip )
      std::reverse( w.begin(), w.end() );
    best = std::min( best, w );
    if( kind == Reversible )
      continue;
    for( std::size_t i = 0; i < w.size(); i++ )
    {
      std::rotate( w.begin(), w.begin() + 1, w.end() );
      best = std::min( best, w );
    }
  }
  return best;
}

// Reference: all classes of arrangements of k out of the given elements
static std::set<V> reference( Kind kind, const V& elements, int k )
{
  std::set<V> all;
  int n = int( elements.size() );
  if( kind == Combination )
  {
    V chosen;
    std::function<void( int )> choose = [&] ( int i )
    {
      if( int( chosen.size() ) == k ) { all.insert( canonical( kind, chosen ) ); return; }
      if( n - i < k - int( chosen.size() ) ) return;
      chosen.push_back( elements[i] );
      choose( i + 1 );
      chosen.pop_back();
      choose( i + 1 );
    };
    choose( 0 );
    return all;
  }
  V current;
  std::vector<bool> used( n );
  std::function<void()> go = [&]
  {
    if( int( current.size() ) == k )
    {
      all.insert( canonical( kind, current ) );
      return;
    }
    for( int i = 0; i < n; i++ )
      if( !used[i] )
      {
        used[i] = true;
        current.push_back( elements[i] );
        go();
        current.pop_back();
        used[i] = false;
      }
  };
  go();
  return all;
}

template <class It> struct Visitor
{
  std::vector<V>* seen;
  unsigned long calls;
  unsigned long stop; // 0 = never
  It first, mid;
  bool* badRange;

  bool operator()( It b, It e )
  {
    calls++;
    if( b != first || e != mid )
      *badRange = true;
    seen->push_back( V( b, e ) );
    return stop != 0 && calls == stop;
  }
};

template <class C> static void run( Kind kind, const V& elements, int k, unsigned long stop,
                                    std::vector<V>& seen, V& after, unsigned long& calls, bool& badRange,
                                    unsigned long& count )
{
  C c( elements.begin(), elements.end() );
  using It = typename C::iterator;
  It first = c.begin(), last = c.end(), mid = std::next( c.begin(), k );
  badRange = false;
  Visitor<It> v { &seen, 0, stop, first, mid, &badRange };
  switch( kind )
  {
  case Combination:
    count = am::count_each_combination( first, mid, last );
    v = am::for_each_combination( first, mid, last, v );
    break;
  case Permutation:
    count = am::count_each_permutation( first, mid, last );
    v = am::for_each_permutation( first, mid, last, v );
    break;
  case Circular:
    count = am::count_each_circular_permutation( first, mid, last );
    v = am::for_each_circular_permutation( first, mid, last, v );
    break;
  case Reversible:
    count = am::count_each_reversible_permutation( first, mid, last );
    v = am::for_each_reversible_permutation( first, mid, last, v );
    break;
  case ReversibleCircular:
    count = am::count_each_reversible_circular_permutation( first, mid, last );
    v = am::for_each_reversible_circular_permutation( first, mid, last, v );
    break;
  }
  calls = v.calls;
  after.assign( c.begin(), c.end() );
}

template <class C> static void checkRange( const char* container, Kind kind, const V& elements, int k, bool stops )
{
  auto all = reference( kind, elements, k );
  std::vector<V> seen;
  V after;
  unsigned long calls = 0, count = 0;
  bool bad = false;
  H().setCase( cat( kindName[kind], " of ", k, " of ", str( elements ), " in a ", container ) );
  H().state();
  run<C>( kind, elements, k, 0, seen, after, calls, bad, count );
  H().step( seen.size() );

  H().check( calls == all.size(), "arrangement-count", cat( "visitor called ", calls, " times, expected ", all.size() ) );
  H().check( seen.size() == calls, "returned-visitor", "the returned visitor does not carry the state of the calls" );
  H().check( count == all.size(), "arrangement-count-function", cat( "counting yields ", count, ", expected ", all.size() ) );
  H().check( !bad, "visitor-range", "visitor not called with the selected range" );
  std::set<V> classes;
  for( auto&& s : seen )
    H().check( classes.insert( canonical( kind, s ) ).second, "arrangement-twice", cat( str( s ), " visited twice" ) );
  H().check( classes == all, "arrangement-set", "not all arrangements have been visited" );
  H().check( after == elements, "range-restored", cat( "range is ", str( after ), " after enumeration" ) );
  H().trace();

  if( !stops )
    return;

  V sorted = elements;
  std::sort( sorted.begin(), sorted.end() );
  for( unsigned long stop = 1; stop <= seen.size(); stop++ )
  {
    H().setCase( cat( kindName[kind], " of ", k, " of ", str( elements ), " in a ", container, " stopped at call ", stop ) );
    std::vector<V> prefix;
    run<C>( kind, elements, k, stop, prefix, after, calls, bad, count );
    H().step( prefix.size() );
    H().check( calls == stop && prefix.size() == stop, "stop", cat( "visitor called ", prefix.size(), " times" ) );
    H().check( prefix.size() <= seen.size() && std::equal( prefix.begin(), prefix.end(), seen.begin() ), "stop-prefix", "other arrangements visited before stopping" );
    if( !prefix.empty() )
      H().check( V( after.begin(), after.begin() + k ) == prefix.back(), "stop-state", "range does not contain the arrangement at which the enumeration was stopped" );
    std::sort( after.begin(), after.end() );
    H().check( after == sorted, "stop-elements", "elements lost by stopping" );
  }
}

// Exact counts; 0 denotes a value larger than `limit`
static unsigned long exact( Kind kind, unsigned long d1, unsigned long d2, unsigned long limit )
{
  unsigned long n = d1 + d2;
  if( kind == Combination )
  {
    unsigned long m = std::min( d1, d2 );
    unsigned __int128 r = 1;
    for( unsigned long i = 1; i <= m; i++ )
    {
      r = r * ( n - m + i ) / i;
      if( r > limit )
        return 0;
    }
    return (unsigned long)( r );
  }

  unsigned long divisor = 1;
  if( kind == Circular && d1 > 0 )
    divisor = d1;
  if( kind == Reversible && d1 > 1 )
    divisor = 2;
  if( kind == ReversibleCircular )
    divisor = d1 >= 3 ? 2 * d1 : ( d1 > 0 ? d1 : 1 );

  unsigned __int128 r = 1;
  for( unsigned long i = n; i > d2; i-- )
  {
    r *= i;
    if( r / divisor > limit * (unsigned __int128)( 1000000 ) )
      return 0;
  }
  r /= divisor;
  return r > limit ? 0 : (unsigned long)( r );
}

template <class U> static U count( Kind kind, U a, U b )
{
  switch( kind )
  {
  case Combination: return am::count_each_combination( a, b );
  case Permutation: return am::count_each_permutation( a, b );
  case Circular:    return am::count_each_circular_permutation( a, b );
  case Reversible:  return am::count_each_reversible_permutation( a, b );
  default:          return am::count_each_reversible_circular_permutation( a, b );
  }
}

template <class U> static void checkCounts( const char* type, int from, int to )
{
  unsigned long max = (unsigned long)( std::numeric_limits<U>::max() );
  for( int kind = 0; kind < 5; kind++ )
    for( int a = from; a <= to; a++ )
      for( int b = from; b <= to; b++ )
      {
        if( !H().mine() )
          continue;
        H().setCase( cat( "number of ", kindName[kind], "s for ", a, "+", b, " as ", type ) );
        H().state();
        bool overflow = false, invalid = false;
        U r = 0;
        try { r = count<U>( Kind( kind ), U( a ), U( b ) ); }
        catch( std::overflow_error& ) { overflow = true; }
        catch( std::invalid_argument& ) { invalid = true; }

        if( a < 0 || b < 0 )
        {
          H().check( invalid, "count-negative", "negative argument accepted" );
          continue;
        }
        H().check( !invalid, "count-rejected", "valid argument rejected" );
        auto e = exact( Kind( kind ), a, b, max );
        if( overflow )
          H().check( e == 0 || (unsigned long)( a + b ) > max, "count-overflow", cat( "overflow reported for the count ", e ) );
        else
          H().check( (unsigned long)( r ) == e, "count-value", cat( "counted ", (unsigned long)( r ), ", expected ", e ? cat( e ) : std::string( "overflow" ) ) );
      }
}

void explore()
{
  int n  = H().thorough ? 8 : 7;
  int ns = H().thorough ? 6 : 5;
  for( int kind = 0; kind < 5; kind++ )
    for( int size = 0; size <= n; size++ )
      for( int k = 0; k <= size; k++ )
        for( int reversed = 0; reversed < 2; reversed++ )
        {
          if( !H().mine() )
            continue;
          V v;
          for( int i = 0; i < size; i++ )
            v.push_back( reversed ? size - i : i );
          checkRange<V>( "vector", Kind( kind ), v, k, size <= ns );
          if( size < n )
            checkRange<std::list<int>>( "list", Kind( kind ), v, k, size < ns );
        }

  // Few or nearly all elements of longer ranges
  for( int size = n + 1; size <= ( H().thorough ? 40 : 24 ); size++ )
    for( int k = 0; k <= size; k++ )
      for( int kind = 0; kind < 5; kind++ )
      {
        double arrangements = 1;
        for( int i = 0; i < k && kind != Combination; i++ ) arrangements *= size - i;
        for( int i = 0; i < std::min( k, size - k ) && kind == Combination; i++ ) arrangements = arrangements * ( size - i ) / ( i + 1 );
        if( arrangements > ( H().thorough ? 30000 : 4000 ) || !H().mine() ) continue;
        V v;
        for( int i = 0; i < size; i++ ) v.push_back( i * 7 % ( size + ( size % 7 == 0 ) ) );
        checkRange<V>( "vector", Kind( kind ), v, k, arrangements < 100 );
        if( arrangements < 1000 ) checkRange<std::list<int>>( "list", Kind( kind ), v, k, false );
      }

  checkCounts<unsigned char>( "unsigned char", 0, 255 );
  checkCounts<signed char>( "signed char", -3, 127 );
  checkCounts<unsigned short>( "unsigned short", 0, H().thorough ? 1000 : 300 );
  checkCounts<int>( "int", -2, 40 );
  checkCounts<unsigned>( "unsigned", 0, 40 );
}
