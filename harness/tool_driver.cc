// Runs a command-line tool, whose entry point has been renamed, once per request.
// A request is a line of fields: directory, input, output and error file, followed
// by the arguments. Every run takes place in a child process; the answer is its
// exit status or 1000 plus the signal that terminated it.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

int tool_main( int, char** ) asm( "tool_main" );

static void redirect( const std::string& path, int flags, int fd )
{
  int f = open( path.c_str(), flags, 0600 );
  if( f < 0 || dup2( f, fd ) < 0 )
    _exit( 120 );
  close( f );
}

int main( int, char** argv )
{
  std::string line;
  char c;

  while( read( 0, &c, 1 ) == 1 )
  {
    if( c != '\n' )
    {
      line += c;
      continue;
    }

    std::vector<std::string> fields( 1 );
    for( char x : line )
    {
      if( x == '\x1f' )
        fields.emplace_back();
      else
        fields.back() += x;
    }
    line.clear();

    pid_t pid = fork();
    if( pid == 0 )
    {
      if( chdir( fields[0].c_str() ) != 0 )
        _exit( 120 );
      redirect( fields[1], O_RDONLY, 0 );
      redirect( fields[2], O_WRONLY | O_CREAT | O_TRUNC, 1 );
      redirect( fields[3], O_WRONLY | O_CREAT | O_TRUNC, 2 );
      alarm( 20 );

      std::vector<char*> args;
      args.push_back( argv[0] );
      for( std::size_t i = 4; i < fields.size(); i++ )
        args.push_back( &fields[i][0] );
      args.push_back( nullptr );

      exit( tool_main( int( args.size() ) - 1, args.data() ) );
    }

    int status = 0;
    waitpid( pid, &status, 0 );
    printf( "%d\n", WIFSIGNALED( status ) ? 1000 + WTERMSIG( status ) : WEXITSTATUS( status ) );
    fflush( stdout );
  }
}
