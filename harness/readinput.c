/* reads input files: readinput path [path ...]; also a libFuzzer target */
#include "Mainfile.h"
#include <unistd.h>
#include "input_reader.h"
#undef sysconf
extern long sysconf( int ) ;
long vs_sysconf( int name ) { return sysconf( name ) ; }
struct latt_info Latt ;
static int one( const char *path )
{
  struct infile_data IN ;
  memset( &IN , 0 , sizeof IN ) ;
  Latt.Seed[0] = 1 ; Latt.Nthreads = 1 ; Latt.flow = 0 ; Latt.argc = 3 ; Latt.head = NERSC_HEADER ;
  const int rc = get_input_data( &IN , path ) ;
  /* every byte of the settings, as used later */
  volatile size_t s = 0 ;
  if( rc == GLU_SUCCESS ) {
    s += strlen( IN.output_details ) + strlen( IN.CUTINFO.where ) ;
    if( IN.mode > MODE_HEATBATH || IN.head < 1 || IN.head > 20 ) { abort( ) ; }
    /* these are passed to functions that write with them */
    char tmp[ 512 ] ; snprintf( tmp , sizeof tmp , "%s %s" , IN.output_details , IN.CUTINFO.where ) ; s += tmp[0] ;
    if( strlen( IN.output_details ) >= sizeof IN.output_details || strlen( IN.CUTINFO.where ) >= sizeof IN.CUTINFO.where ) { abort( ) ; }
  }
  fflush( stdout ) ;
  return rc ;
}
#ifdef LIBFUZZER
int LLVMFuzzerTestOneInput( const unsigned char *d , size_t n )
{
  static char path[ 4096 ] ;
  if( path[0] == 0 ) { const char *dir = getenv( "FUZZ_SCRATCH" ) ; snprintf( path , sizeof path , "%s/in.%d" , dir ? dir : "/dev/shm" , (int)getpid() ) ; if( freopen( "/dev/null" , "w" , stdout ) == NULL ) { return 0 ; } }
  FILE *f = fopen( path , "wb" ) ; if( f == NULL ) { return 0 ; }
  fwrite( d , 1 , n , f ) ; fclose( f ) ;
  one( path ) ;
  return 0 ;
}
#else
int main( int argc , char **argv )
{
  int i ;
  for( i = 1 ; i < argc ; i++ ) { const int rc = one( argv[i] ) ; dprintf( 2 , "\nREAD-RESULT %s\n" , rc == GLU_SUCCESS ? "success" : "failure" ) ; }
  dprintf( 2 , "\nALL-READ\n" ) ;
  return 0 ;
}
#endif
