// Included before every command-line tool: files that a tool creates outside of
// the scratch directory of the current run, such as /tmp, are redirected into it.
#pragma once
#include <cstdlib>
#include <fstream>
#include <string>

namespace std
{

struct vf_ofstream : public basic_ofstream<char>
{
  static string redirect( const string& path )
  {
    const char* root = getenv( "VF_ROOT" );
    const char* away = getenv( "VF_AWAY" );
    if( !root || !away || path.empty() || path[0] != '/' || path.compare( 0, string( root ).size(), root ) == 0 )
      return path;
    return string( away ) + "/" + path.substr( path.find_last_of( '/' ) + 1 );
  }

  vf_ofstream() {}
  explicit vf_ofstream( const string& path, ios_base::openmode mode = ios_base::out )
    : basic_ofstream<char>( redirect( path ), mode ) {}

  void open( const string& path, ios_base::openmode mode = ios_base::out )
  {
    basic_ofstream<char>::open( redirect( path ), mode );
  }
};

}

#define ofstream vf_ofstream
