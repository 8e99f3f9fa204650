#ifndef VF_COMMON_HH
#define VF_COMMON_HH

// Small runtime shared by all exhaustive explorers in this directory. An
// explorer enumerates a bounded space completely, drives the real library
// code on every member of it and compares the outcome with a reference.

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf
{

class Harness
{
public:
  static Harness& get() { static Harness h; return h; }

  void init( int argc, char** argv )
  {
    for( int i = 1; i + 1 < argc; i += 2 )
    {
      std::string k = argv[i], v = argv[i+1];
      if( k == "--tier" )        thorough = v == "thorough";
      else if( k == "--shard" )  shard  = std::stoul( v );
      else if( k == "--shards" ) shards = std::stoul( v );
      else if( k == "--out" )    out = v;
      else if( k == "--scratch") scratch = v;
      else if( k == "--hang" )   hang = std::atoi( v.c_str() );
      else if( k == "--only" )   only = v;
      else if( k == "--known" )
      {
        std::istringstream s( v );
        std::string key;
        while( std::getline( s, key, '\n' ) )
          if( !key.empty() )
            known.insert( key );
      }
    }

    // The library is chatty at some places; the streams are not observed.
    std::cout.rdbuf( nullptr );
    std::cerr.rdbuf( nullptr );
    std::clog.rdbuf( nullptr );

    // The current case lives in a shared mapping so that it survives a
    // crash of this process.
    std::string casefile = out + ".case";
    int fd = ::open( casefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
    if( fd >= 0 && ::ftruncate( fd, CASE ) == 0 )
    {
      void* p = ::mmap( nullptr, CASE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
      if( p != MAP_FAILED )
        current = static_cast<char*>( p );
    }
    if( !current )
      current = static_cast<char*>( std::calloc( CASE, 1 ) );

    struct sigaction sa;
    std::memset( &sa, 0, sizeof( sa ) );
    sa.sa_handler = &Harness::tick;
    ::sigaction( SIGALRM, &sa, nullptr );
    struct itimerval t;
    t.it_interval.tv_sec  = t.it_value.tv_sec  = 1;
    t.it_interval.tv_usec = t.it_value.tv_usec = 0;
    ::setitimer( ITIMER_REAL, &t, nullptr );
  }

  // Work distribution: an outer work item belongs to exactly one shard, so
  // the union over all shards is the complete space.
  bool mine() { return ( item++ % shards ) == shard; }

  // Counts the current case as explored; equal cases are counted once.
  void state()
  {
    std::uint64_t h = 1469598103934665603ull;
    for( const char* p = current; *p; ++p )
      h = ( h ^ static_cast<unsigned char>( *p ) ) * 1099511628211ull;
    seen.insert( h );
  }

  void step ( std::size_t n = 1 ) { transitions += n; }
  void trace( std::size_t n = 1 ) { traces      += n; }
  void note ( const std::string& what, std::size_t n = 1 ) { notes[what] += n; }

  void setCase( const std::string& s )
  {
    ++progress;
    std::size_t n = std::min( s.size(), CASE - 1 );
    std::memcpy( current, s.data(), n );
    current[n] = 0;
  }

  void setCase( const char* fmt, ... ) __attribute__(( format( printf, 2, 3 ) ))
  {
    ++progress;
    va_list ap;
    va_start( ap, fmt );
    std::vsnprintf( current, CASE, fmt, ap );
    va_end( ap );
  }

  void appendCase( const std::string& s )
  {
    ++progress;
    std::size_t m = std::strlen( current );
    std::size_t n = std::min( s.size(), CASE - 1 - m );
    std::memcpy( current + m, s.data(), n );
    current[m+n] = 0;
  }

  void alive() { ++progress; }

  bool skip() const { return !only.empty() && only != current; }

  // Remembers the current case as one of the samples for the evidence.
  void sample()
  {
    ++sampleCounter;
    if( samples.size() < 2 || ( samples.size() < 6 && ( sampleCounter & ( sampleCounter - 1 ) ) == 0 ) )
      samples.push_back( current );
  }

  // Reports a violation for the current case. The key identifies the kind of
  // finding; listed keys are reported separately by the driver.
  void fail( const std::string& key, const std::string& msg )
  {
    ++failures[key];
    if( failures[key] <= 3 )
      details.push_back( { key, std::string( current ), msg } );

    if( known.find( key ) == known.end() && ++unknownFailures >= 40 )
    {
      finish();
      std::_Exit( 1 );
    }
  }

  void check( bool condition, const std::string& key, const std::string& msg )
  {
    if( !condition )
      fail( key, msg );
  }

  // Executes one case; any exception that leaves the library is a violation.
  template <class F> void guarded( const std::string& key, F f )
  {
    if( skip() )
      return;
    try { f(); }
    catch( const std::exception& e ) { fail( key + "-exception", std::string( "unexpected exception: " ) + e.what() ); }
    catch( ... )                     { fail( key + "-exception", "unexpected exception" ); }
  }

  int finish()
  {
    std::ofstream o( out );
    o << "{\"states\":" << seen.size() << ",\"transitions\":" << transitions << ",\"traces\":" << traces;
    o << ",\"notes\":{";
    bool first = true;
    for( auto&& p : notes ) { o << ( first ? "" : "," ) << quote( p.first ) << ":" << p.second; first = false; }
    o << "},\"samples\":[";
    first = true;
    for( auto&& s : samples ) { o << ( first ? "" : "," ) << quote( s ); first = false; }
    o << "],\"violations\":[";
    first = true;
    for( auto&& d : details )
    {
      o << ( first ? "" : "," ) << "{\"key\":" << quote( d.key ) << ",\"case\":" << quote( d.text )
        << ",\"msg\":" << quote( d.msg ) << ",\"count\":" << failures[d.key] << "}";
      first = false;
    }
    o << "]}\n";
    o.close();
    return unknownFailures ? 1 : 0;
  }

  bool thorough      = false;
  std::size_t shard  = 0;
  std::size_t shards = 1;
  std::string scratch = "/tmp";

private:
  static const std::size_t CASE = 1 << 16;

  struct Detail { std::string key, text, msg; };

  static std::string quote( const std::string& s )
  {
    std::string r = "\"";
    for( unsigned char c : s )
    {
      if( c == '"' || c == '\\' )      { r += '\\'; r += char( c ); }
      else if( c < 0x20 || c >= 0x7f ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", c ); r += b; }
      else r += char( c );
    }
    return r + "\"";
  }

  static void tick( int )
  {
    Harness& h = get();
    if( h.progress != h.lastProgress )
    {
      h.lastProgress = h.progress;
      h.stalled      = 0;
    }
    else if( ++h.stalled >= h.hang )
      ::_exit( 77 );
  }

  std::string out = "/tmp/vf.json", only;
  int hang = 120;
  std::set<std::string> known;
  std::size_t item = 0, transitions = 0, traces = 0, unknownFailures = 0, sampleCounter = 0;
  volatile std::size_t progress = 0, lastProgress = 0;
  volatile int stalled = 0;
  std::map<std::string, std::size_t> notes, failures;
  std::vector<std::string> samples;
  std::vector<Detail> details;
  std::unordered_set<std::uint64_t> seen;
  char* current = nullptr;
};

inline Harness& H() { return Harness::get(); }

// Formatting ----------------------------------------------------------

template <class T> std::string str( const T& x )
{
  std::ostringstream o;
  o.precision( 17 );
  o << x;
  return o.str();
}

inline std::string str( const std::string& s ) { return s; }
inline std::string str( const char* s )        { return s; }

template <class A, class B> std::string str( const std::pair<A,B>& p );
template <class T> std::string str( const std::vector<T>& v );

template <class A, class B> std::string str( const std::pair<A,B>& p )
{
  return "(" + str( p.first ) + "," + str( p.second ) + ")";
}

template <class T> std::string str( const std::vector<T>& v )
{
  std::string r = "[";
  bool first = true;
  for( auto&& x : v )
  {
    if( !first ) r += ",";
    r += str( x );
    first = false;
  }
  return r + "]";
}

template <class T> std::string str( const std::set<T>& v )
{
  return str( std::vector<T>( v.begin(), v.end() ) );
}

inline std::string cat() { return {}; }
template <class T, class... R> std::string cat( const T& t, const R&... r ) { return str( t ) + cat( r... ); }

// Numbers -------------------------------------------------------------

// Magnitude of the values that are compared
inline double& unit() { static double u = 1; return u; }

inline bool close( double a, double b, double eps = 1e-9 )
{
  if( a == b ) return true;
  if( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
  if( std::isinf( a ) || std::isinf( b ) ) return false;
  return std::fabs( a - b ) <= eps * std::max( unit(), std::max( std::fabs( a ), std::fabs( b ) ) );
}

// Enumeration ---------------------------------------------------------

// Odometer over all vectors of the given length with entries in [0,base).
template <class F> void forAllVectors( std::size_t n, unsigned base, F f )
{
  std::vector<unsigned> v( n, 0 );
  if( base == 0 && n != 0 ) return;
  while( true )
  {
    f( const_cast<const std::vector<unsigned>&>( v ) );
    std::size_t i = 0;
    while( i < n && ++v[i] == base )
      v[i++] = 0;
    if( i == n )
      return;
  }
}

// All non-decreasing vectors, i.e. all multisets of the given size.
template <class F> void forAllMultisets( std::size_t n, unsigned base, F f )
{
  std::vector<unsigned> v( n, 0 );
  if( base == 0 && n != 0 ) return;
  while( true )
  {
    f( const_cast<const std::vector<unsigned>&>( v ) );
    std::size_t i = n;
    while( i > 0 && v[i-1] + 1 == base )
      --i;
    if( i == 0 )
      return;
    unsigned x = v[i-1] + 1;
    for( std::size_t k = i - 1; k < n; k++ )
      v[k] = x;
  }
}

} // namespace vf

// Entry point of an explorer.
void explore();

int main( int argc, char** argv )
{
  vf::H().init( argc, argv );
  try { explore(); }
  catch( const std::exception& e ) { vf::H().fail( "exception", std::string( "unexpected exception: " ) + e.what() ); }
  catch( ... )                     { vf::H().fail( "exception", "unexpected exception" ); }
  int r = vf::H().finish();
  std::_Exit( r );
}

#endif
