// String, file name, container and value helpers.

#include "common.hh"

#include <aleph/utilities/ContainerOperators.hh>
#include <aleph/utilities/Filesystem.hh>
#include <aleph/utilities/Format.hh>
#include <aleph/utilities/String.hh>
#include <aleph/utilities/UnorderedSetOperations.hh>
#include <aleph/utilities/Values.hh>

#include <sys/socket.h>
#include <sys/un.h>

using namespace vf;
namespace u = aleph::utilities;

static bool blank( char c ) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }

static std::string quote( const std::string& s )
{
  std::string r = "\"";
  for( char c : s ) r += c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : c == '\v' ? "\\v" : std::string( 1, c );
  return r + "\"";
}

template <class F> void allStrings( const std::string& alphabet, std::size_t n, F f )
{
  for( std::size_t k = 0; k <= n; k++ )
    forAllVectors( k, unsigned( alphabet.size() ), [&] ( const std::vector<unsigned>& x )
    {
      if( !H().mine() ) return;
      std::string s;
      for( auto i : x ) s += alphabet[i];
      f( s );
    } );
}

static void tokens( const std::string& s )
{
  H().setCase( "string " + quote( s ) );
  H().state();
  H().guarded( "string", [&]
  {
    std::size_t a = 0, b = s.size();
    while( a < b && blank( s[a] ) ) a++;
    auto left = s.substr( a );
    while( b > a && blank( s[b-1] ) ) b--;
    auto both = s.substr( a, b - a );
    std::size_t c = s.size();
    while( c > 0 && blank( s[c-1] ) ) c--;
    auto right = s.substr( 0, c );
    H().check( u::ltrim( s ) == left, "ltrim", "left trimming yields " + quote( u::ltrim( s ) ) );
    H().check( u::rtrim( s ) == right, "rtrim", "right trimming yields " + quote( u::rtrim( s ) ) );
    H().check( u::trim( s ) == both, "trim", "trimming yields " + quote( u::trim( s ) ) );

    std::vector<std::string> words, fields( 1 ), spaces( 1 );
    std::string word;
    for( char ch : s + " " )
      if( blank( ch ) ) { if( !word.empty() ) words.push_back( word ); word.clear(); }
      else word += ch;
    H().check( u::splitByWhitespace( s ) == words, "split-whitespace", cat( "splitting by whitespace yields ", u::splitByWhitespace( s ).size(), " tokens" ) );
    H().check( u::countTokens( s ) == words.size(), "count", cat( "number of tokens should be ", words.size(), ", got ", u::countTokens( s ) ) );
    // Splitting at every separator; the last field is omitted if it is empty
    for( std::size_t i = 0; i < s.size(); i++ )
    {
      if( s[i] == 'a' ) fields.push_back( "" ); else fields.back() += s[i];
      if( blank( s[i] ) ) { if( !i || !blank( s[i-1] ) ) spaces.push_back( "" ); } else spaces.back() += s[i];
    }
    if( fields.size() > 1 && fields.back().empty() ) fields.pop_back();
    if( spaces.size() > 1 && spaces.back().empty() ) spaces.pop_back();
    H().check( u::split( s, std::string( "a" ) ) == fields, "split", cat( "splitting at a character yields ", u::split( s, std::string( "a" ) ).size(), " fields instead of ", fields.size() ) );
    H().check( u::split( s ) == spaces, "split", cat( "splitting yields ", u::split( s ).size(), " fields instead of ", spaces.size() ) );
    H().step( 7 );
    H().trace();
    H().sample();
  } );
}

// Numbers: optional sign, digits with optional point, optional exponent
static void numbers( const std::string& s )
{
  H().setCase( "number " + quote( s ) );
  H().state();
  H().guarded( "number", [&]
  {
    std::size_t i = 0, digits = 0;
    auto at = [&] ( std::size_t k ) { return k < s.size() ? s[k] : '\0'; };
    if( at( i ) == '+' || at( i ) == '-' ) i++;
    while( isdigit( at( i ) ) ) { i++; digits++; }
    std::size_t integer = digits ? i : 0;
    if( at( i ) == '.' ) i++;
    while( isdigit( at( i ) ) ) { i++; digits++; }
    bool valid = digits > 0;
    if( valid && at( i ) == 'e' )
    {
      std::size_t k = i + 1;
      if( at( k ) == '+' || at( k ) == '-' ) k++;
      if( !isdigit( at( k ) ) ) return; // incomplete numbers are not specified
      while( isdigit( at( k ) ) ) k++;
      i = k;
    }
    // Numbers that cannot be represented are not specified
    double value = strtod( s.c_str(), nullptr );
    if( valid && ( std::isinf( value ) || ( value != 0 && std::abs( value ) < 1e-300 ) || ( value == 0 && s.find_first_of( "15" ) < s.find( 'e' ) ) ) ) return;
    bool success = true;
    double g = u::convert<double>( s, success );
    H().step();
    if( valid && i == s.size() )
    {
      double e = strtod( s.c_str(), nullptr );
      H().check( success && g == e, "convert", cat( "should be ", e, ", got ", g, " success=", success ) );
      H().check( u::convert<double>( s ) == e, "convert", "conversion without flag" );
    }
    else if( !valid ) H().check( !success && g == 0, "convert-invalid", cat( "is not a number, got ", g, " success=", success ) );
    if( integer == s.size() && integer )
    {
      int k = u::convert<int>( s, success );
      H().check( success && k == atoi( s.c_str() ), "convert-int", cat( "should be ", atoi( s.c_str() ), ", got ", k ) );
    }
    H().trace();
  } );
}

static void special()
{
  const double I = std::numeric_limits<double>::infinity();
  for( auto word : { std::string( "inf" ), std::string( "infinity" ) } )
    for( std::string sign : { "", "+", "-" } )
      for( unsigned mask = 0; mask < ( 1u << word.size() ); mask++ )
      {
        if( !H().mine() ) continue;
        auto w = word;
        for( std::size_t i = 0; i < w.size(); i++ ) if( mask >> i & 1 ) w[i] = char( toupper( w[i] ) );
        H().setCase( "special " + sign + w );
        H().state();
        bool success = false;
        double g = u::convert<double>( sign + w, success );
        H().step();
        H().check( success && g == ( sign == "-" ? -I : I ), "infinity", cat( "should be infinite, got ", g, " success=", success ) );
        float f = u::convert<float>( sign + w, success );
        H().check( success && std::isinf( f ) && ( f < 0 ) == ( sign == "-" ), "infinity", cat( "should be infinite for float, got ", f ) );
        H().trace();
      }
  for( std::string w : { "nan", "NaN", "NAN", "Nan" } )
  {
    if( !H().mine() ) continue;
    H().setCase( "special " + w );
    H().state();
    bool success = false;
    double g = u::convert<double>( w, success );
    H().check( success && std::isnan( g ), "nan", cat( "should not be a number, got ", g ) );
    H().trace();
  }
  for( std::string w : { "infx", "xinf", "nanx", "in", "na", "--inf", "infinit", "abc", "", "+", "-" } )
  {
    if( !H().mine() ) continue;
    H().setCase( "special " + w );
    H().state();
    bool success = true;
    u::convert<double>( w, success );
    H().check( !success, "invalid", "should be rejected" );
    H().trace();
  }
}

static void paths( const std::string& s )
{
  H().setCase( "path " + quote( s ) );
  H().state();
  H().guarded( "path", [&]
  {
    // Trailing slashes are ignored
    std::string e;
    if( !s.empty() )
    {
      auto last = s.find_last_not_of( '/' );
      if( last == std::string::npos ) e = "/";
      else
      {
        auto head = s.substr( 0, last + 1 );
        auto slash = head.find_last_of( '/' );
        e = slash == std::string::npos ? head : head.substr( slash + 1 );
      }
    }
    H().check( u::basename( s ) == e, "basename", "basename should be " + quote( e ) + ", got " + quote( u::basename( s ) ) );
    auto dot = e.find_last_of( '.' );
    bool none = dot == std::string::npos || e == "." || e == "..";
    auto stem = none ? e : e.substr( 0, dot ), extension = none ? "" : e.substr( dot );
    H().check( u::stem( s ) == stem, "stem", "stem should be " + quote( stem ) + ", got " + quote( u::stem( s ) ) );
    H().check( u::extension( s ) == extension, "extension", "extension should be " + quote( extension ) + ", got " + quote( u::extension( s ) ) );
    H().step( 3 );
    H().trace();
  } );
}

static void formats()
{
  for( int N = 0; N <= ( H().thorough ? 100100 : 1100 ); N++ )
  {
    if( !H().mine() ) continue;
    H().setCase( cat( "format ", N ) );
    H().state();
    std::size_t width = std::to_string( N ).size();
    for( int n : { 0, 1, 5, 9, 10, 12, 99, 100, 101, 999, 1000, N } )
      for( char fill : { '0', ' ' } )
      {
        if( n > N ) continue;
        auto e = std::to_string( n );
        e = std::string( width - e.size(), fill ) + e;
        auto g = u::format( n, N, fill );
        H().step();
        H().check( g == e, "format", cat( "number ", n, " with maximum ", N, " should be ", quote( e ), ", got ", quote( g ) ) );
      }
    H().check( u::format( 0u, unsigned( N ) ) == std::string( width, '0' ), "format", cat( "default for maximum ", N ) );
    H().trace();
  }
}

static void files()
{
  if( !H().mine() ) return;
  H().setCase( "files" );
  H().state();
  auto d = H().scratch + cat( "/files-", H().shard );
  mkdir( d.c_str(), 0700 );
  mkdir( ( d + "/directory" ).c_str(), 0700 );
  { std::ofstream out( d + "/file" ); }
  H().check( symlink( "file", ( d + "/link" ).c_str() ) == 0 && symlink( "missing", ( d + "/dangling" ).c_str() ) == 0 && mkfifo( ( d + "/pipe" ).c_str(), 0600 ) == 0, "setup", "unable to create files" );
  int s = socket( AF_UNIX, SOCK_STREAM, 0 );
  sockaddr_un address{};
  address.sun_family = AF_UNIX;
  auto name = d + "/socket";
  bool haveSocket = name.size() < sizeof( address.sun_path );
  if( haveSocket )
  {
    std::strcpy( address.sun_path, name.c_str() );
    haveSocket = s >= 0 && bind( s, reinterpret_cast<sockaddr*>( &address ), sizeof( address ) ) == 0;
  }
  using F = u::FileType;
  struct { std::string name; F type; bool exists; } expected[] = {
    { d, F::Directory, true }, { d + "/directory", F::Directory, true }, { d + "/file", F::RegularFile, true }, { d + "/link", F::SymbolicLink, true },
    { d + "/dangling", F::SymbolicLink, false }, { d + "/missing", F::Undefined, false }, { d + "/pipe", F::NamedPipe, true }, { "", F::Undefined, false },
    { d + "/file/nothing", F::Undefined, false }, { d + "/socket", haveSocket ? F::Socket : F::Undefined, haveSocket }, { "/dev/null", F::CharacterDevice, true } };
  for( auto&& e : expected )
  {
    auto t = e.name.size() > d.size() ? e.name.substr( d.size() ) : e.name;
    H().setCase( "file " + t );
    H().check( u::fileType( e.name ) == e.type, "type", "type of the file is wrong" );
    H().check( u::isDirectory( e.name ) == ( e.type == F::Directory ) && u::isRegularFile( e.name ) == ( e.type == F::RegularFile ) && u::isSocket( e.name ) == ( e.type == F::Socket ), "type", "query for the type of the file is wrong" );
    H().check( u::exists( e.name ) == e.exists, "exists", cat( "existence of the file should be ", e.exists ) );
    H().step( 5 );
  }
  if( s >= 0 ) close( s );
  for( auto n : { "/link", "/dangling", "/pipe", "/socket", "/file" } ) unlink( ( d + n ).c_str() );
  rmdir( ( d + "/directory" ).c_str() );
  rmdir( d.c_str() );

  const char* variables[] = { "TMPDIR", "TMP", "TEMP", "TEMPDIR" };
  std::map<std::string, std::string> old;
  for( auto v : variables ) if( getenv( v ) ) old[v] = getenv( v );
  for( unsigned mask = 0; mask < 16; mask++ )
  {
    H().setCase( cat( "temporary directory ", mask ) );
    H().state();
    std::string e;
    for( unsigned i = 0; i < 4; i++ )
      if( mask >> i & 1 )
      {
        setenv( variables[i], cat( "/value", i ).c_str(), 1 );
        if( e.empty() ) e = cat( "/value", i );
      }
      else unsetenv( variables[i] );
    auto g = u::tempDirectory();
    H().step();
    if( mask ) H().check( g == e, "temporary", "temporary directory should be " + e + ", got " + g );
    else H().check( !g.empty() && g[0] == '/', "temporary", "there should be a default temporary directory" );
    H().trace();
  }
  for( auto v : variables ) if( old.count( v ) ) setenv( v, old[v].c_str(), 1 ); else unsetenv( v );
}

static void containers()
{
  using V = std::vector<int>;
  std::vector<V> all;
  for( std::size_t n = 0; n <= 3; n++ ) forAllVectors( n, 4, [&] ( const std::vector<unsigned>& x ) { V v; for( auto i : x ) v.push_back( int( i ) - 1 ); all.push_back( v ); } );
  for( auto&& a : all ) for( auto&& b : all )
  {
    if( !H().mine() ) continue;
    H().setCase( cat( "vectors ", str( a ), " ", str( b ) ) );
    H().state();
    H().guarded( "containers", [&]
    {
      using namespace aleph::utilities;
      if( a.size() == b.size() )
      {
        V sum, difference;
        for( std::size_t i = 0; i < a.size(); i++ ) { sum.push_back( a[i] + b[i] ); difference.push_back( a[i] - b[i] ); }
        H().check( a + b == sum && a - b == difference, "arithmetic", "sum or difference of vectors is wrong" );
      }
      for( int l : { -2, 0, 3 } )
      {
        V e;
        for( auto x : a ) e.push_back( l * x );
        H().check( l * a == e, "arithmetic", "scalar multiplication of a vector is wrong" );
      }
      // Exact numbers for both tolerances
      for( double tolerance : { 0.5, 1.0, 1.5 } )
      {
        bool absolute = a.size() == b.size(), relative = absolute;
        for( std::size_t i = 0; i < a.size() && i < b.size(); i++ )
        {
          if( std::abs( a[i] - b[i] ) > tolerance ) absolute = false;
          if( std::abs( a[i] - b[i] ) > tolerance * std::abs( b[i] ) ) relative = false;
        }
        H().check( allclose( a.begin(), a.end(), b.begin(), b.end(), 0.0, tolerance ) == absolute, "close", cat( "closeness with absolute tolerance ", tolerance ) );
        H().check( allclose( a.begin(), a.end(), b.begin(), b.end(), tolerance, 0.0 ) == relative, "close", cat( "closeness with relative tolerance ", tolerance ) );
      }
      H().check( allclose( a.begin(), a.end(), b.begin(), b.end() ) == ( a == b ), "close", "closeness with default tolerances" );

      std::unordered_set<int> A( a.begin(), a.end() ), B( b.begin(), b.end() ), C;
      set_intersection( A, B, C );
      std::unordered_set<int> e;
      for( auto x : A ) if( B.count( x ) ) e.insert( x );
      H().check( C == e, "intersection", "intersection of sets is wrong" );
      H().step( 8 );
      H().trace();
    } );
  }
  for( int x = -2; x <= 3; x++ ) for( int l = -2; l <= 3; l++ )
  {
    if( !H().mine() ) continue;
    H().setCase( cat( "values ", x, " ", l ) );
    H().state();
    bool larger = true;
    try { u::ensureLarger( x, l ); } catch( std::out_of_range& ) { larger = false; }
    H().check( larger == ( x > l ), "values", "check for larger values is wrong" );
    for( int k = -2; k <= 3; k++ )
    {
      bool range = true;
      try { u::ensureRange( x, l, k ); } catch( std::out_of_range& ) { range = false; }
      H().check( range == ( l <= x && x <= k ), "values", "check for the range of values is wrong" );
    }
    H().step( 7 );
    H().trace();
  }
}

// Longer strings, lists and numbers
static void large()
{
  for( unsigned n = 2; n <= ( H().thorough ? 200u : 60u ); n++ )
    for( unsigned kind = 0; kind < 6; kind++ )
    {
      if( !H().mine() ) continue;
      std::string s, p;
      for( unsigned i = 0; i < n; i++ )
      {
        s += kind == 0 ? "x" : kind == 1 ? " " : kind == 2 ? "1a" : kind == 3 ? "word \t" : kind == 4 ? ( i < n / 2 ? "\n" : "b" ) : ( i % 3 ? "a" : "  " );
        p += kind == 0 ? "dir/" : kind == 1 ? "a.b." : kind == 2 ? "/" : kind == 3 ? "/x.y/" : kind == 4 ? "." : ( i % 2 ? "../" : "q.e" );
      }
      tokens( s );
      tokens( "  " + s + "\t\n" );
      paths( p );
      paths( p + "file.tar.gz" );
      numbers( ( kind % 2 ? "-" : "" ) + std::string( kind < 2 ? n % 300 : 1, '5' ) + "." + std::string( kind > 3 ? n : 2, '1' ) + "e" + std::to_string( int( n ) * ( kind % 2 ? 1 : -1 ) ) );
      H().setCase( cat( "vectors of length ", n, " kind ", kind ) );
      H().state();
      H().guarded( "containers", [&]
      {
        using namespace aleph::utilities;
        using V = std::vector<int>;
        V a, b, sum, difference, scaled;
        std::unordered_set<int> A, B, C, e;
        for( unsigned i = 0; i < n; i++ )
        {
          a.push_back( int( i * 37 % 101 ) - 50 );
          b.push_back( a[i] + ( ( i + kind ) % n == n / 2 ? 2 : 0 ) );
          sum.push_back( a[i] + b[i] ); difference.push_back( a[i] - b[i] ); scaled.push_back( -3 * a[i] );
          A.insert( int( i ) ); B.insert( int( i * ( kind + 1 ) ) );
        }
        for( auto x : A ) if( B.count( x ) ) e.insert( x );
        H().check( a + b == sum && a - b == difference && -3 * a == scaled, "arithmetic", "arithmetic of vectors is wrong" );
        H().check( allclose( a.begin(), a.end(), a.begin(), a.end() ) && !allclose( a.begin(), a.end(), b.begin(), b.end() ) && !allclose( b.begin(), b.end(), a.begin(), a.end() ) && allclose( a.begin(), a.end(), b.begin(), b.end(), 0.0, 2.0 ) && !allclose( a.begin(), a.end(), b.begin(), b.end(), 0.0, 1.0 ), "close", "closeness of vectors is wrong" );
        H().check( !allclose( a.begin(), a.end(), a.begin(), a.end() - 1 ) && !allclose( a.begin(), a.end() - 1, a.begin(), a.end() ), "close", "vectors of different lengths are close" );
        set_intersection( A, B, C );
        H().check( C == e, "intersection", "intersection of sets is wrong" );
        H().step( 8 );
      } );
      H().trace();
    }
  // Powers of ten and their neighbours
  for( unsigned long N = 10; N <= 1000000000ul; N *= 10 )
    for( long delta = -1; delta <= 1; delta++ )
      for( unsigned long n = 1; n <= N; n *= 10 )
        for( long below = 0; below <= 1; below++ )
        {
          if( !H().mine() || n - below > N + delta ) continue;
          H().setCase( cat( "format ", n - below, " ", N + delta ) );
          H().state();
          auto e = std::to_string( n - below );
          e = std::string( std::to_string( N + delta ).size() - e.size(), '0' ) + e;
          H().check( u::format( n - below, N + delta ) == e, "format", "should be " + e + ", got " + u::format( n - below, N + delta ) );
          H().step();
        }
}

void explore()
{
  large();
  allStrings( " \ta1\n", H().thorough ? 6 : 5, tokens );
  allStrings( " \r\v\fa", 3, tokens );
  allStrings( "+-.e15a", H().thorough ? 6 : 5, numbers );
  special();
  allStrings( "/.ab", H().thorough ? 8 : 6, paths );
  formats();
  files();
  containers();
}
