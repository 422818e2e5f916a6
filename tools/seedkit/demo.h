/* scaffold of the demonstrations: geometry, fields from a generator of its own */
#include "Mainfile.h"
#include "geometry.h"
#include "init.h"
#include "gtrans.h"
#include "plaqs_links.h"
#include "clover.h"
#include "POLY.h"
#include "GLU_malloc.h"
#include "par_rng.h"
#include "U_Nops.h"
#include "MMUL.h"
#include "MMUL_dag.h"
#include "MMULdag.h"
#include <omp.h>

struct latt_info Latt ;
GLU_bool INIT_RNG ;

static unsigned long long demo_s = 88172645463325252ULL ;
static double demo_u( void ) { demo_s ^= demo_s << 13 ; demo_s ^= demo_s >> 7 ; demo_s ^= demo_s << 17 ; return ( demo_s >> 11 ) / 9007199254740992.0 ; }
static double demo_g( void ) { double s = 0 ; int i ; for( i = 0 ; i < 12 ; i++ ) s += demo_u() ; return s - 6.0 ; }
static void demo_geom( const size_t *d , int threads )
{
  int mu ; for( mu = 0 ; mu < ND ; mu++ ) Latt.dims[mu] = d[mu] ;
  omp_set_num_threads( threads ) ; Latt.Seed[0] = 7 ; init_latt( ) ;
}
/* random matrix 1 + eps*noise, orthonormalised by rows, unit determinant by phase of the last row */
static void demo_su( double complex *U , double eps )
{
  int i , j , k ;
  for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) U[i*NC+j] = ( eps < 0 ? 0.0 : ( i == j ) ) + fabs( eps ) * ( demo_g() + I * demo_g() ) ;
  for( i = 0 ; i < NC ; i++ ) {
    for( k = 0 ; k < i ; k++ ) { double complex s = 0 ; for( j = 0 ; j < NC ; j++ ) s += conj( U[k*NC+j] ) * U[i*NC+j] ; for( j = 0 ; j < NC ; j++ ) U[i*NC+j] -= s * U[k*NC+j] ; }
    double n = 0 ; for( j = 0 ; j < NC ; j++ ) n += creal( U[i*NC+j] * conj( U[i*NC+j] ) ) ; n = sqrt( n ) ; for( j = 0 ; j < NC ; j++ ) U[i*NC+j] /= n ;
  }
  /* determinant by elimination */
  double complex A[NCNC] , det = 1.0 ; for( i = 0 ; i < NCNC ; i++ ) A[i] = U[i] ;
  for( i = 0 ; i < NC ; i++ ) {
    int p = i ; for( k = i+1 ; k < NC ; k++ ) if( cabs( A[k*NC+i] ) > cabs( A[p*NC+i] ) ) p = k ;
    if( p != i ) { for( j = 0 ; j < NC ; j++ ) { double complex t = A[i*NC+j] ; A[i*NC+j] = A[p*NC+j] ; A[p*NC+j] = t ; } det = -det ; }
    det *= A[i*NC+i] ;
    for( k = i+1 ; k < NC ; k++ ) { double complex f = A[k*NC+i] / A[i*NC+i] ; for( j = i ; j < NC ; j++ ) A[k*NC+j] -= f * A[i*NC+j] ; }
  }
  for( j = 0 ; j < NC ; j++ ) U[(NC-1)*NC+j] /= det ;
}
static struct site *demo_lat( double eps )
{
  struct site *lat = allocate_lat( ) ; size_t i , mu ; int j ;
  init_navig( lat ) ;
  for( i = 0 ; i < LVOLUME ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { double complex U[NCNC] ; demo_su( U , eps ) ; for( j = 0 ; j < NCNC ; j++ ) lat[i].O[mu][j] = U[j] ; }
  return lat ;
}
static struct site *demo_copy( const struct site *a )
{
  struct site *lat = allocate_lat( ) ; size_t i , mu ; int j ;
  init_navig( lat ) ;
  for( i = 0 ; i < LVOLUME ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) for( j = 0 ; j < NCNC ; j++ ) lat[i].O[mu][j] = a[i].O[mu][j] ;
  return lat ;
}
static double demo_diff( const struct site *a , const struct site *b )
{
  double m = 0 ; size_t i , mu ; int j ;
  for( i = 0 ; i < LVOLUME ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) for( j = 0 ; j < NCNC ; j++ ) { double d = cabs( a[i].O[mu][j] - b[i].O[mu][j] ) ; if( !( d <= m ) ) m = d ; }
  return m ;
}
/* C = A B, with optional daggers, on plain arrays */
static void demo_mm( double complex *c , const double complex *a , int da , const double complex *b , int db )
{
  int i , j , k ; double complex r[NCNC] ;
  for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) { double complex s = 0 ; for( k = 0 ; k < NC ; k++ ) s += ( da ? conj( a[k*NC+i] ) : a[i*NC+k] ) * ( db ? conj( b[j*NC+k] ) : b[k*NC+j] ) ; r[i*NC+j] = s ; }
  for( i = 0 ; i < NCNC ; i++ ) c[i] = r[i] ;
}
static void demo_gauge( struct site *lat )   /* random gauge transformation, done here */
{
  double complex *g = malloc( LVOLUME * NCNC * sizeof( double complex ) ) ; size_t i , mu ; int j ;
  for( i = 0 ; i < LVOLUME ; i++ ) demo_su( g + i*NCNC , -1.0 ) ;
  for( i = 0 ; i < LVOLUME ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) {
    double complex U[NCNC] ; for( j = 0 ; j < NCNC ; j++ ) U[j] = lat[i].O[mu][j] ;
    demo_mm( U , g + i*NCNC , 0 , U , 0 ) ; demo_mm( U , U , 0 , g + lat[i].neighbor[mu]*NCNC , 1 ) ;
    for( j = 0 ; j < NCNC ; j++ ) lat[i].O[mu][j] = U[j] ; }
  free( g ) ;
}
#define EXPECT( cond , ... ) do { if( !( cond ) ) { fprintf( stderr , "DEMO FAILS: " __VA_ARGS__ ) ; fprintf( stderr , "\n" ) ; return 1 ; } } while( 0 )
