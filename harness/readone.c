/* reads configuration files: readone head path [head path ...]; also a libFuzzer target */
#include "Mainfile.h"
#include <unistd.h>
#include <fcntl.h>
#include "geometry.h"
#include "GLU_malloc.h"
#include "GLUlib_wrap.h"
#ifndef MEMLIMIT
#define MEMLIMIT (192L<<20)
#endif
#undef sysconf
extern long sysconf( int ) ;
/* a machine with little memory, so that headers with large extents stay harmless */
long vs_sysconf( int name )
{
  if( name == _SC_PAGESIZE ) { return 4096 ; }
  if( name == _SC_PHYS_PAGES || name == _SC_AVPHYS_PAGES ) { return MEMLIMIT/4096 ; }
  return sysconf( name ) ;
}
struct latt_info Latt ;
static void one( const int head , const char *path )
{
  size_t mu ;
  struct head_data H ;
  memset( &H , 0 , sizeof H ) ;
  for( mu = 0 ; mu < ND ; mu++ ) { Latt.dims[mu] = 2 ; }
  Latt.Seed[0] = 1 ; Latt.Nthreads = 1 ; Latt.flow = 0 ; Latt.argc = 3 ;
  Latt.head = (header_mode)head ;
  if( Latt.su2_data != NULL ) { free( Latt.su2_data ) ; Latt.su2_data = NULL ; }
  struct site *lat = read_file( &H , path ) ;
  /* every byte of what was read */
  if( lat != NULL ) {
    volatile double s = 0 ;
    size_t i , j ;
    for( i = 0 ; i < LVOLUME ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) for( j = 0 ; j < NCNC ; j++ ) s += creal( lat[i].O[mu][j] ) + lat[i].neighbor[mu] ;
    free_lat( lat ) ;
  }
  fflush( stdout ) ;
#ifndef LIBFUZZER
  dprintf( 2 , "\nREAD-RESULT %s\n" , lat == NULL ? "failure" : "success" ) ;
#endif
}
#ifdef LIBFUZZER
int LLVMFuzzerTestOneInput( const unsigned char *d , size_t n )
{
  static const char *dir ; static char path[ 4096 ] ; static int null = -1 ;
  if( dir == NULL ) { dir = getenv( "FUZZ_SCRATCH" ) ; snprintf( path , sizeof path , "%s/in.%d" , dir ? dir : "/dev/shm" , (int)getpid() ) ; if( freopen( "/dev/null" , "w" , stdout ) == NULL ) { return 0 ; } }
  if( n < 1 ) { return 0 ; }
  FILE *f = fopen( path , "wb" ) ; if( f == NULL ) { return 0 ; }
  fwrite( d+1 , 1 , n-1 , f ) ; fclose( f ) ;
  (void)null ;
  one( 1 + d[0]%9 , path ) ;
  return 0 ;
}
#else
int main( int argc , char **argv )
{
  int i ;
  for( i = 1 ; i+1 < argc ; i += 2 ) { one( atoi( argv[i] ) , argv[i+1] ) ; }
  dprintf( 2 , "\nALL-READ\n" ) ;
  return 0 ;
}
#endif
