/* Flat-array C interface to the library for the property checks (ctypes). */
#include "Mainfile.h"
#include <unistd.h>
#include <fcntl.h>
#include "MMUL.h"
#include "MMUL_dag.h"
#include "MMULdag.h"
#include "MMULdagdag.h"
#include "MMUL_SUNC.h"
#include "U_Nops.h"
#include "trace_abc.h"
#include "lie_mats.h"
#include "gramschmidt.h"
#include "givens.h"
#include "exactQ.h"
#include "expMat.h"
#include "taylor_logs.h"
#include "invert.h"
#include "LU.h"
#include "evalues.h"
#include "effs.h"
#include "vandermonde.h"
#include "SU2_rotate.h"
#include "plaqs_links.h"
#include "POLY.h"
#include "clover.h"
#include "gtrans.h"
#include "gftests.h"
#include "geometry.h"
#include "draughtboard.h"
#include "random_config.h"
#include "BPST_config.h"
#include "smear.h"
#include "HYP.h"
#include "4D_fast.h"
#include "ND_generic_HYP.h"
#include "wflow.h"
#include "adaptive_flow.h"
#include "wflowfuncs.h"
#include "staples.h"
#include "projectors.h"
#include "SM_wrap.h"
#include "GF_wrap.h"
#include "OBS_wrap.h"
#include "CUT_wrap.h"
#include "Landau.h"
#include "Coulomb.h"
#include "MAG.h"
#include "Or.h"
#include "hb.h"
#include "relax.h"
#include "KPHB.h"
#include "par_rng.h"
#include "GLU_splines.h"
#include "GLU_sums.h"
#include "GLU_bswap.h"
#include "crc.h"
#include "Scidac.h"
#include "cut_routines.h"
#include "cut_output.h"
#include "SUNCxU1_config.h"
#include "U1_obs.h"
#include "U1_top.h"
#include "GLUlib_wrap.h"
#include "input_reader.h"
#include "str_stuff.h"
#include "GLU_malloc.h"
#include "init.h"


/* declared by the headers but not defined in every configuration */
#pragma weak LU_det
#pragma weak LU_det_overwrite
#pragma weak newton_approx_inverse
#pragma weak brute_force_log
#pragma weak asinh_log
#pragma weak nape_reunit
extern double par_danc_sum( const double *a , const size_t N ) ;
#pragma weak par_danc_sum
#pragma weak par_dandc_sum

struct latt_info Latt ;

typedef double complex dc ;

/* ------------------------------------------------------------------ set-up */
void vs_info( int *o )
{
  o[0] = NC ; o[1] = ND ; o[2] = HERMSIZE ; o[3] = (int)sizeof( GLU_real ) ;
  o[4] = TRUE_HERM ;
  o[5] = 0 ;
#ifdef HAVE_FFTW3_H
  o[5] = 1 ;
#endif
  o[6] = 0 ;
#ifdef HAVE_IMMINTRIN_H
  o[6] = 1 ;
#endif
  o[7] = NQMOMENTS ;
}
void vs_threads( int n ) {
#if (defined _OPENMP ) && (defined HAVE_OMP_H)
  if( n > 0 ) { omp_set_num_threads( n ) ; }
  #pragma omp parallel
  { Latt.Nthreads = omp_get_num_threads( ) ; }
#else
  Latt.Nthreads = 1 ;
#endif
}
void vs_geom( const long *dims , int nthreads )
{
  int mu ;
  for( mu = 0 ; mu < ND ; mu++ ) Latt.dims[mu] = (size_t)dims[mu] ;
#if (defined _OPENMP ) && (defined HAVE_OMP_H)
  if( nthreads > 0 ) { omp_set_num_threads( nthreads ) ; }
#endif
  if( Latt.su2_data != NULL ) { free( Latt.su2_data ) ; Latt.su2_data = NULL ; }
  init_latt( ) ;
}
void vs_params( double gf_alpha , const double *sm_alpha , unsigned seed , unsigned long flow , int head )
{
  int mu ;
  Latt.gf_alpha = gf_alpha ;
  for( mu = 0 ; mu < ND-1 ; mu++ ) Latt.sm_alpha[mu] = sm_alpha[mu] ;
  Latt.Seed[0] = seed ;
  Latt.flow = flow ;
  Latt.head = (header_mode)head ;
}
void vs_seed( unsigned seed ) { Latt.Seed[0] = seed ; }
unsigned vs_get_seed( void ) { return Latt.Seed[0] ; }
void vs_get_latt( long *dims , double *misc )
{
  int mu ;
  for( mu = 0 ; mu < ND ; mu++ ) dims[mu] = (long)Latt.dims[mu] ;
  misc[0] = Latt.Volume ; misc[1] = Latt.Lcu ; misc[2] = Latt.Lsq ; misc[3] = Latt.flow ;
  misc[4] = Latt.Nthreads ; misc[5] = Latt.head ; misc[6] = Latt.gf_alpha ; misc[7] = Latt.Seed[0] ;
  for( mu = 0 ; mu < ND-1 ; mu++ ) misc[8+mu] = Latt.sm_alpha[mu] ;
}
void vs_argc( int n ) { Latt.argc = n ; }

/* send stdout to a file (or /dev/null) and back */
static int saved_out = -1 , saved_err = -1 ;
void vs_redirect( const char *path , const char *epath )
{
  fflush( stdout ) ; fflush( stderr ) ;
  if( saved_out < 0 ) { saved_out = dup( 1 ) ; saved_err = dup( 2 ) ; }
  int fd = open( path , O_WRONLY|O_CREAT|O_TRUNC , 0644 ) ;
  dup2( fd , 1 ) ; close( fd ) ;
  fd = open( epath , O_WRONLY|O_CREAT|O_TRUNC , 0644 ) ;
  dup2( fd , 2 ) ; close( fd ) ;
}
void vs_flush( void ) { fflush( stdout ) ; fflush( stderr ) ; }
void vs_restore( void )
{
  fflush( stdout ) ; fflush( stderr ) ;
  if( saved_out >= 0 ) { dup2( saved_out , 1 ) ; dup2( saved_err , 2 ) ; }
}

struct site *vs_alloc( void ) { return allocate_lat( ) ; }
void vs_free( struct site *lat ) { free_lat( lat ) ; }
void vs_set( struct site *lat , const dc *in )
{
  size_t i ; int mu , e ;
  for( i = 0 ; i < Latt.Volume ; i++ )
    for( mu = 0 ; mu < ND ; mu++ )
      for( e = 0 ; e < NCNC ; e++ )
	lat[i].O[mu][e] = in[ ( i*ND + mu )*NCNC + e ] ;
}
void vs_get( const struct site *lat , dc *out )
{
  size_t i ; int mu , e ;
  for( i = 0 ; i < Latt.Volume ; i++ )
    for( mu = 0 ; mu < ND ; mu++ )
      for( e = 0 ; e < NCNC ; e++ )
	out[ ( i*ND + mu )*NCNC + e ] = lat[i].O[mu][e] ;
}
void vs_navig( const struct site *lat , long *nb , long *bk )
{
  size_t i ; int mu ;
  for( i = 0 ; i < Latt.Volume ; i++ )
    for( mu = 0 ; mu < ND ; mu++ ) {
      nb[i*ND+mu] = (long)lat[i].neighbor[mu] ;
      bk[i*ND+mu] = (long)lat[i].back[mu] ;
    }
}

/* ------------------------------------------------------------------ gauge field I/O */
/* memory the library believes the machine has, for configurations built with -Dsysconf=vs_sysconf */
static double vs_bytes = 0 ;
void vs_mem( double bytes ) { vs_bytes = bytes ; }
#undef sysconf
extern long sysconf( int ) ;
long vs_sysconf( int name )
{
  if( vs_bytes > 0 ) {
    if( name == _SC_PAGESIZE ) { return 1 ; }
    if( name == _SC_PHYS_PAGES || name == _SC_AVPHYS_PAGES ) { return (long)vs_bytes ; }
  }
  return sysconf( name ) ;
}
struct site *vs_read( const char *path , int head , double *hd )
{
  struct head_data H ;
  memset( &H , 0 , sizeof H ) ;
  Latt.head = (header_mode)head ;
  if( Latt.su2_data != NULL ) { free( Latt.su2_data ) ; Latt.su2_data = NULL ; }
  struct site *lat = read_file( &H , path ) ;
  hd[0] = H.endianess ; hd[1] = H.config_type ; hd[2] = H.precision ;
  hd[3] = H.plaquette ; hd[4] = H.trace ; hd[5] = H.checksum ; hd[6] = H.checksumb ;
  return lat ;
}
int vs_write( struct site *lat , const char *path , int storage , const char *details )
{
  return write_configuration( lat , path , (GLU_output)storage , details ) ;
}

/* ------------------------------------------------------------------ matrices */
#define AL(x) GLU_complex x[ NCNC ] GLUalign
static void in_( GLU_complex *d , const dc *s , int n ) { int i ; for( i = 0 ; i < n ; i++ ) d[i] = s[i] ; }
static void out_( dc *d , const GLU_complex *s , int n ) { int i ; for( i = 0 ; i < n ; i++ ) d[i] = s[i] ; }

/* product family: a is result (and input for the atomic ones) */
int vs_mul( int op , dc *pa , const dc *pb , const dc *pc )
{
  AL(a) ; AL(b) ; AL(c) ;
  in_( a , pa , NCNC ) ; in_( b , pb , NCNC ) ; in_( c , pc , NCNC ) ;
  switch( op ) {
  case 0 : multab( a , b , c ) ; break ;
  case 1 : multab_suNC( a , b , c ) ; break ;
  case 2 : multabdag( a , b , c ) ; break ;
  case 3 : multabdag_suNC( a , b , c ) ; break ;
  case 4 : multab_dag( a , b , c ) ; break ;
  case 5 : multab_dag_suNC( a , b , c ) ; break ;
  case 6 : multab_dagdag( a , b , c ) ; break ;
  case 7 : multab_dagdag_suNC( a , b , c ) ; break ;
  case 8 : multab_atomic_left( a , b ) ; break ;
  case 9 : multab_atomic_right( a , b ) ; break ;
  case 10 : gtransform_local( b , a , c ) ; break ;
  default : return -1 ;
  }
  out_( pa , a , NCNC ) ;
  return 0 ;
}
/* dense helpers: a in/out, b, c in, s scalar, returns scalar results in r */
int vs_dense( int op , dc *pa , const dc *pb , const dc *pc , const dc *s , int n , dc *r )
{
  AL(a) ; AL(b) ; AL(c) ; GLU_real re = 0 ; GLU_complex z = 0 ; double d = 0 ;
  in_( a , pa , NCNC ) ; in_( b , pb , NCNC ) ; in_( c , pc , NCNC ) ;
  r[0] = r[1] = 0 ;
  switch( op ) {
  case 0 : add_constant( a , s[0] ) ; break ;
  case 1 : a_plus_b( a , b ) ; break ;
  case 2 : a_plus_CSxb( a , b , s[0] ) ; break ;
  case 3 : a_plus_Sxb( a , b , creal( s[0] ) ) ; break ;
  case 4 : b_min_c( a , b , c ) ; break ;
  case 5 : r[0] = cofactor_transpose( a , b ) ; break ;
  case 6 : equiv( a , b ) ; break ;
  case 7 : dagger( a , b ) ; break ;
  case 8 : diag( a , s[0] ) ; break ;
  case 9 : diag_vect( a , b ) ; break ;
  case 10 : identity( a ) ; break ;
  case 11 : r[0] = is_unitary( b ) ; break ;
  case 12 : r[0] = det( b ) ; break ;
  case 13 : mat_mult_vec( a , b , c ) ; break ;
  case 14 : M_times_c( a , s[0] ) ; break ;
  case 15 : matrix_power( a , b , n ) ; break ;
  case 16 : outerproduct( a , b , c ) ; break ;
  case 17 : speed_det( &z , b ) ; r[0] = z ; break ;
  case 18 : speed_trace( &z , b ) ; r[0] = z ; break ;
  case 19 : speed_trace_Re( &d , b ) ; r[0] = d ; break ;
  case 20 : r[0] = trace( b ) ; break ;
  case 21 : trace_ab( &z , b , c ) ; r[0] = z ; break ;
  case 22 : trace_ab_dag( &z , b , c ) ; r[0] = z ; break ;
  case 23 : trace_ab_dag_Re( &re , b , c ) ; r[0] = re ; break ;
  case 24 : trace_ab_herm( &re , b , c ) ; r[0] = re ; break ;
  case 25 : trace_prod_herm( &re , b ) ; r[0] = re ; break ;
  case 26 : transpose( a , b ) ; break ;
  case 27 : zero_mat( a ) ; break ;
  case 28 : trace_abc( &z , a , b , c ) ; r[0] = z ; break ;
  case 29 : trace_abc_dag( &z , a , b , c ) ; r[0] = z ; break ;
  case 30 : trace_abc_dag_Re( &re , a , b , c ) ; r[0] = re ; break ;
  case 31 : r[0] = Re_trace_abc_dag_suNC( a , b , c ) ; break ;
  case 32 : { /* pack and rebuild hermitian; a_out = rebuilt */
    GLU_complex h[ NCNC ] ; pack_hermitian( h , b ) ; rebuild_hermitian( a , h ) ; break ; }
  case 33 : { /* traces of short hermitian */
    GLU_complex h[ NCNC ] , g[ NCNC ] ; pack_hermitian( h , b ) ; pack_hermitian( g , c ) ;
    trace_ab_herm_short( &re , h , g ) ; r[0] = re ; break ; }
  case 34 : { /* shorten and rebuild */
#if NC < 4
    GLU_real sh[ 2*NCNC ] ; memset( sh , 0 , sizeof sh ) ; shorten( sh , b ) ; rebuild( a , sh ) ; break ;
#else
    return -1 ;
#endif
  }
  case 35 : { /* a_plus_Sxbminc_short on packed hermitians, rebuilt */
    GLU_complex h[ NCNC ] , g[ NCNC ] , f[ NCNC ] ;
    pack_hermitian( f , a ) ; pack_hermitian( h , b ) ; pack_hermitian( g , c ) ;
    a_plus_Sxbminc_short( f , creal( s[0] ) , h , g ) ; rebuild_hermitian( a , f ) ; break ; }
  case 36 : { /* rebuild anti-hermitian from the packed entries of an antihermitian */
    GLU_complex h[ NCNC ] ; pack_hermitian( h , b ) ; rebuild_antihermitian( a , h ) ; break ; }
  default : return -1 ;
  }
  out_( pa , a , NCNC ) ;
  return 0 ;
}
/* group / algebra operations: out from in */
int vs_group( int op , dc *pa , const dc *pb , int n , dc *r )
{
  AL(a) ; AL(b) ; GLU_complex h[ NCNC ] GLUalign ;
  in_( a , pa , NCNC ) ; in_( b , pb , NCNC ) ; r[0] = 0 ;
  int i ;
  for( i = 0 ; i < NCNC ; i++ ) h[i] = 0 ;
  switch( op ) {
  case 0 : equiv( a , b ) ; gram_reunit( a ) ; break ;
  case 1 : equiv( a , b ) ; givens_reunit( a ) ; break ;
  case 2 : if( !nape_reunit ) return -1 ; equiv( a , b ) ; nape_reunit( a ) ; break ;
  case 3 : Hermitian_proj( a , b ) ; break ;
  case 4 : AntiHermitian_proj( a , b ) ; break ;
  case 5 : Hermitian_proj_short( h , b ) ; rebuild_hermitian( a , h ) ; break ;
  case 6 : AntiHermitian_proj_short( h , b ) ; rebuild_antihermitian( a , h ) ; break ;
  case 7 : trf_AntiHermitian_proj( a , b ) ; break ;
  case 8 : exact_log_slow( a , b ) ; break ;
  case 9 : exact_log_slow_short( h , b ) ; rebuild_hermitian( a , h ) ; break ;
  case 10 : get_iQ( a , b ) ; break ;
  case 11 : if( !brute_force_log ) return -1 ; r[0] = brute_force_log( a , b , n ) ; break ;
  case 12 : if( !asinh_log ) return -1 ; r[0] = asinh_log( a , b ) ; break ;
  case 13 : exponentiate( a , b ) ; break ;
  case 14 : pack_hermitian( h , b ) ; exponentiate_short( a , h ) ; break ;
  case 15 : r[0] = inverse( a , b ) ; break ;
  case 16 : if( !newton_approx_inverse ) return -1 ; newton_approx_inverse( a , b ) ; break ;
  case 17 : if( !LU_det ) return -1 ; r[0] = LU_det( NC , b ) ; break ;
  case 18 : { if( !LU_det_overwrite ) return -1 ; GLU_complex t[ NCNC ] GLUalign ; equiv( t , b ) ; r[0] = LU_det_overwrite( NC , t ) ; break ; }
  default : return -1 ;
  }
  out_( pa , a , NCNC ) ;
  return 0 ;
}
int vs_lu_det_n( int N , const dc *m , dc *r )
{
  GLU_complex *t = NULL ;
  if( !LU_det || !LU_det_overwrite ) return -1 ;
  if( posix_memalign( (void**)&t , 16 , N*N*sizeof( GLU_complex ) ) ) return -1 ;
  in_( t , m , N*N ) ; r[0] = LU_det( N , t ) ; r[1] = LU_det_overwrite( N , t ) ; free( t ) ;
  return 0 ;
}
int vs_eig( int op , dc *z , const dc *pb )
{
  AL(b) ; in_( b , pb , NCNC ) ;
  double complex zz[ NC ] ; double zr[ NC ] ; int i ;
  for( i = 0 ; i < NC ; i++ ) { zz[i] = 0 ; zr[i] = 0 ; }
  switch( op ) {
  case 0 : Eigenvalues( zz , b ) ; break ;
  case 1 : Eigenvalues_suNC( zz , b ) ; break ;
  case 2 : Eigenvalues_hermitian( zr , b ) ; for( i = 0 ; i < NC ; i++ ) zz[i] = zr[i] ; break ;
  default : return -1 ;
  }
  for( i = 0 ; i < NC ; i++ ) z[i] = zz[i] ;
  return 0 ;
}
void vs_vdm( int op , dc *f , const double *x )
{
  double complex ff[ NC ] ; int i ; for( i = 0 ; i < NC ; i++ ) ff[i] = f[i] ;
  if( op == 0 ) solvandermonde( ff , x ) ; else solvandermonde_new( x , ff ) ;
  for( i = 0 ; i < NC ; i++ ) f[i] = ff[i] ;
}
void vs_effs( int op , dc *f , const dc *z )
{
  double complex ff[ NC ] ; int i ;
  if( op == 0 ) { double zr[ NC ] ; for( i = 0 ; i < NC ; i++ ) zr[i] = creal( z[i] ) ; calculate_effs_VDM_herm( ff , zr ) ; }
  else { double complex zz[ NC ] ; for( i = 0 ; i < NC ; i++ ) zz[i] = z[i] ; calculate_effs_VDM_suNC( ff , zz ) ; }
  for( i = 0 ; i < NC ; i++ ) f[i] = ff[i] ;
}
void vs_lie( const dc *pa , const dc *pb , const dc *pc , dc *r )
{
  AL(a) ; AL(b) ; AL(c) ;
  in_( a , pa , NCNC ) ; in_( b , pb , NCNC ) ; in_( c , pc , NCNC ) ;
  r[0] = ifabc_ABC( a , b , c ) ; r[1] = dabc_ABC( a , b , c ) ; r[2] = ifabc_dabc_ABC( a , b , c ) ;
}
void vs_lie_init( int on ) { if( on ) { init_generators() ; compute_fs_and_ds() ; } else { free_f_and_d() ; free_generators() ; } }
void vs_init_factorial( void ) { attach_GLU() ; }
void vs_su2idx( long *o )
{
  int i ; for( i = 0 ; i < NSU2SUBGROUPS ; i++ ) {
    o[4*i] = Latt.su2_data[i].idx_a ; o[4*i+1] = Latt.su2_data[i].idx_b ;
    o[4*i+2] = Latt.su2_data[i].idx_c ; o[4*i+3] = Latt.su2_data[i].idx_d ; }
}
void vs_su2( int op , dc *pa , const dc *pst , dc *s , double *scale , int idx )
{
  AL(a) ; AL(st) ; in_( a , pa , NCNC ) ; in_( st , pst , NCNC ) ;
  GLU_complex s0 GLUalign = s[0] , s1 GLUalign = s[1] ;
  switch( op ) {
  case 0 : only_subgroup( &s0 , &s1 , scale , a , st , idx ) ; s[0] = s0 ; s[1] = s1 ; break ;
  case 1 : su2_rotate( a , s0 , s1 , idx ) ; break ;
  case 2 : shortened_su2_multiply( a , s0 , s1 , idx ) ; break ;
  case 3 : shortened_su2_multiply_dag( a , s0 , s1 , idx ) ; break ;
  }
  out_( pa , a , NCNC ) ;
}

/* ------------------------------------------------------------------ geometry */
long vs_gen_site( const int *x ) { int y[ ND ] ; memcpy( y , x , sizeof y ) ; return gen_site( y ) ; }
long vs_get_site_2pi( const int *x , int D ) { int y[ ND ] ; memcpy( y , x , sizeof y ) ; return get_site_2piBZ( y , D ) ; }
long vs_get_site_pipi( const int *x , int D ) { int y[ ND ] ; memcpy( y , x , sizeof y ) ; return get_site_pipiBZ( y , D ) ; }
void vs_get_mom_2pi( int *x , long i , int D ) { get_mom_2piBZ( x , i , D ) ; }
void vs_get_mom_pipi( int *x , long i , int D ) { get_mom_pipi( x , i , D ) ; }
void vs_get_mom_hirep( int *x , long i ) { get_mom_2piBZ_hirep2( x , i ) ; }
void vs_compute_p( double *p , const int *n , int D ) { GLU_real q[ ND ] ; int m ; for( m = 0 ; m < ND ; m++ ) q[m] = 0 ; compute_p( q , n , D ) ; for( m = 0 ; m < ND ; m++ ) p[m] = q[m] ; }
double vs_gen_p_sq( long i , int D ) { return gen_p_sq( i , D ) ; }
double vs_gen_p_sq_feyn( long i , int *f ) { return gen_p_sq_feyn( i , f ) ; }
void vs_gen_get_p( double *p , long i , int D ) { GLU_real q[ ND ] ; int m ; for( m = 0 ; m < ND ; m++ ) q[m] = 0 ; gen_get_p( q , i , D ) ; for( m = 0 ; m < ND ; m++ ) p[m] = q[m] ; }
void vs_vec_from_origin( int *n , long i , int D ) { get_vec_from_origin( n , i , D ) ; }
long vs_rsq( long i , long d ) { return compute_rsq( i , d ) ; }
long vs_spacing( const int *s , long k , int D ) { return compute_spacing( s , k , D ) ; }
long vs_gen_shift( long i , int d ) { return gen_shift( i , d ) ; }
void vs_momconv( int *m , long i , int D ) { TwoPI_mpipi_momconv( m , i , D ) ; }
/* colouring: fills col[site], returns number of colours; sites not listed keep -1, doubly listed get -2 */
long vs_db( int kind , long len , long dir , int *col )
{
  struct draughtboard db ; long i ; size_t c , k ;
  int rc = kind == 0 ? init_cb( &db , len , dir ) : init_improved_cb( &db ) ;
  if( rc != GLU_SUCCESS ) return -1 ;
  for( i = 0 ; i < len ; i++ ) col[i] = -1 ;
  for( c = 0 ; c < db.Ncolors ; c++ )
    for( k = 0 ; k < db.Nsquare[c] ; k++ ) {
      size_t s = db.square[c][k] ;
      if( (long)s >= len ) { free_cb( &db ) ; return -3 ; }
      col[s] = col[s] == -1 ? (int)c : -2 ;
    }
  long nc = db.Ncolors ;
  free_cb( &db ) ;
  return nc ;
}

/* colouring of the links for rectangle actions: col[mu*V+site] */
long vs_db_improved( int *col )
{
  struct draughtboard db ; long i ; size_t c , k ;
  if( init_improved_cb( &db ) != GLU_SUCCESS ) return -1 ;
  for( i = 0 ; i < (long)( ND*LVOLUME ) ; i++ ) col[i] = -1 ;
  for( c = 0 ; c < db.Ncolors ; c++ )
    for( k = 0 ; k < db.Nsquare[c] ; k++ ) {
      size_t s = db.square[c][k] ;
      if( s >= LVOLUME ) { free_cb( &db ) ; return -3 ; }
      s += ( c/4 ) * LVOLUME ;
      col[s] = col[s] == -1 ? (int)c : -2 ;
    }
  long nc = db.Ncolors ;
  free_cb( &db ) ;
  return nc ;
}

/* ------------------------------------------------------------------ observables */
void vs_plaqs( const struct site *lat , double *o )
{
  double s = 0 , t = 0 ;
  o[0] = av_plaquette( lat ) ;
  o[1] = all_plaquettes( lat , &s , &t ) ; o[2] = s ; o[3] = t ;
  o[4] = s_plaq( lat ) ; o[5] = t_plaq( lat ) ;
}
void vs_links( const struct site *lat , double *o )
{
  double s = 0 , t = 0 ; GLU_real m = 0 ;
  o[0] = links( lat ) ; o[1] = s_links( lat ) ; o[2] = t_links( lat ) ;
  o[3] = all_links( lat , &s , &t ) ; o[4] = s ; o[5] = t ;
  o[6] = indivlinks( lat , &m ) ; o[7] = m ;
}
void vs_poly( const struct site *lat , int dir , dc *r ) { r[0] = poly( lat , dir ) ; }
int vs_gmunu( const struct site *lat , double *gg , double *q )
{
  const size_t n = CLINE * Latt.Nthreads ;
  double *red = calloc( n , sizeof( double ) ) ; size_t i ;
  #pragma omp parallel
  { compute_Gmunu_th( red , lat ) ; }
  *gg = 0 ; *q = 0 ;
  for( i = 0 ; i < Latt.Nthreads ; i++ ) { *gg += red[ 0 + i*CLINE ] ; *q += red[ 1 + i*CLINE ] ; }
  free( red ) ; return 0 ;
}
extern void compute_Gmunu( double *__restrict GG , double *__restrict q , const struct site *__restrict lat ) ;
void vs_gmunu2( const struct site *lat , double *o ) { compute_Gmunu( o , o+1 , lat ) ; }
void vs_red( const struct site *lat , double *o )
{
  const size_t n = CLINE * Latt.Nthreads ;
  double *red = calloc( n , sizeof( double ) ) ; size_t i ; int k ;
  #pragma omp parallel
  { compute_Gmunu_th( red , lat ) ; }
  for( k = 0 ; k < CLINE ; k++ ) { o[k] = 0 ; for( i = 0 ; i < Latt.Nthreads ; i++ ) o[k] += red[ k + i*CLINE ] ; }
  free( red ) ;
}
void vs_gmunu_array( const struct site *lat , dc *o )
{
  GLU_complex *q = malloc( Latt.Volume * sizeof( GLU_complex ) ) ; size_t i ;
  compute_Gmunu_array( q , lat ) ;
  for( i = 0 ; i < Latt.Volume ; i++ ) o[i] = q[i] ;
  free( q ) ;
}
int vs_cline( void ) { return CLINE ; }

static GLU_complex **mkg( const dc *g , size_t N )
{
  GLU_complex **p = NULL ; size_t i ; int e ;
  if( GLU_malloc( (void**)&p , ALIGNMENT , N * sizeof( GLU_complex* ) ) ) return NULL ;
  for( i = 0 ; i < N ; i++ ) {
    GLU_malloc( (void**)&p[i] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) ;
    for( e = 0 ; e < NCNC ; e++ ) p[i][e] = g ? g[ i*NCNC + e ] : 0 ;
  }
  return p ;
}
static void rmg( GLU_complex **p , size_t N ) { size_t i ; for( i = 0 ; i < N ; i++ ) free( p[i] ) ; free( p ) ; }
void vs_gtransform( struct site *lat , const dc *g )
{
  GLU_complex **p = mkg( g , Latt.Volume ) ;
  gtransform( lat , (const GLU_complex **)p ) ; rmg( p , Latt.Volume ) ;
}
void vs_gtransform_slice( struct site *lat , const dc *g , const dc *gup , long t )
{
  GLU_complex **p = mkg( g , Latt.Lcu ) , **u = mkg( gup , Latt.Lcu ) ;
  gtransform_slice( (const GLU_complex **)p , lat , (const GLU_complex **)u , t ) ;
  rmg( p , Latt.Lcu ) ; rmg( u , Latt.Lcu ) ;
}
void vs_gtransform_slice_th( struct site *lat , const dc *g , const dc *gup , long t )
{
  GLU_complex **p = mkg( g , Latt.Lcu ) , **u = mkg( gup , Latt.Lcu ) ;
  #pragma omp parallel
  { gtransform_slice_th( (const GLU_complex **)p , lat , (const GLU_complex **)u , t ) ; }
  rmg( p , Latt.Lcu ) ; rmg( u , Latt.Lcu ) ;
}
void vs_gtransform_th( struct site *lat , const dc *g )
{
  GLU_complex **p = mkg( g , Latt.Volume ) ;
  #pragma omp parallel
  { gtransform_th( lat , (const GLU_complex **)p ) ; }
  rmg( p , Latt.Volume ) ;
}
double vs_gtrans_functional( const struct site *lat , const dc *g , long t )
{
  GLU_complex **p = mkg( g , Latt.Lcu ) ;
  double r = gtrans_functional( lat , (const GLU_complex **)p , t ) ; rmg( p , Latt.Lcu ) ; return r ;
}
double vs_gauge_test( const dc *g )
{
  GLU_complex **p = mkg( g , Latt.Volume ) ;
  double r = gauge_test( (const GLU_complex **)p ) ; rmg( p , Latt.Volume ) ; return r ;
}
void vs_gfmeas( const struct site *lat , double *o )
{
  GLU_real m = 0 ;
  o[0] = gauge_functional( lat ) ;
  o[1] = theta_test_lin( lat , &m , ND ) ; o[2] = m ;
  o[3] = theta_test_lin( lat , &m , ND-1 ) ; o[4] = m ;
  o[5] = o[6] = 0 ; const_time( lat , &o[5] , &o[6] ) ;
}
void vs_gfmeas_log( const struct site *lat , double *o )
{
  GLU_real m = 0 ;
  o[0] = theta_test_log( lat , &m , ND ) ; o[1] = m ;
  o[2] = theta_test_log( lat , &m , ND-1 ) ; o[3] = m ;
}
void vs_gauge_obs( const struct site *lat ) { gauge( lat ) ; }

/* ------------------------------------------------------------------ configurations */
int vs_config( int op , struct site *lat )
{
  switch( op ) {
  case 0 : trivial( lat ) ; return 0 ;
  case 1 : random_suNC( lat ) ; return 0 ;
  case 2 : random_gtrans( lat ) ; return 0 ;
  case 3 : latt_reunitU( lat ) ; return 0 ;
  case 4 : return instanton_config( lat ) ;
  }
  return -1 ;
}
void vs_reunitg( dc *g )
{
  GLU_complex **p = mkg( g , Latt.Volume ) ; latt_reunitg( p ) ;
  size_t i ; int e ; for( i = 0 ; i < Latt.Volume ; i++ ) for( e = 0 ; e < NCNC ; e++ ) g[ i*NCNC+e ] = p[i][e] ;
  rmg( p , Latt.Volume ) ;
}
void vs_random_transform( struct site *lat , dc *g )
{
  GLU_complex **p = mkg( NULL , Latt.Volume ) ; random_transform( lat , p ) ;
  size_t i ; int e ; for( i = 0 ; i < Latt.Volume ; i++ ) for( e = 0 ; e < NCNC ; e++ ) g[ i*NCNC+e ] = p[i][e] ;
  rmg( p , Latt.Volume ) ;
}
void vs_random_slice( dc *g )
{
  GLU_complex **p = mkg( NULL , Latt.Lcu ) ; random_gtrans_slice( p ) ;
  size_t i ; int e ; for( i = 0 ; i < Latt.Lcu ; i++ ) for( e = 0 ; e < NCNC ; e++ ) g[ i*NCNC+e ] = p[i][e] ;
  rmg( p , Latt.Lcu ) ;
}

/* ------------------------------------------------------------------ smearing and flow */
int vs_smear( int op , struct site *lat , long n , int type , int dirs )
{
  switch( op ) {
  case 0 : return smear3D( lat , n , type ) ;
  case 1 : return smear4D( lat , n , type ) ;
  case 2 :
#if ND == 4
    return HYPSLsmear3D( lat , n , type ) ;
#else
    return -77 ;
#endif
  case 3 :
#if ND == 4
    return HYPSLsmear4D_expensive( lat , n , type ) ;
#else
    return -77 ;
#endif
  case 4 : return HYsmearND( lat , n , type , dirs ) ;
  case 5 : { struct sm_info S ; S.dir = dirs ; S.smiters = n ; S.type = type ; return SM_wrap_struct( lat , S ) ; }
  }
  return -77 ;
}
int vs_flow( struct site *lat , long n , int sign , int type , int memcheap )
{ return flow_RK3( lat , n , sign , type , memcheap ) ; }
int vs_aflow( struct site *lat , long n , int sign , int type )
{ return flow_adaptive_RK3( lat , n , sign , type ) ; }
void vs_staples( const struct site *lat , long i , int mu , int dir , int type , dc *o )
{
  AL(st) ; int e ; for( e = 0 ; e < NCNC ; e++ ) st[e] = 0 ;
  all_staples( st , lat , i , mu , dir , type ) ; out_( o , st , NCNC ) ;
}
int vs_project( int op , dc *o , const dc *stp , const dc *lk , double alpha , double al )
{
  AL(s) ; AL(st) ; AL(l) ; in_( s , o , NCNC ) ; in_( st , stp , NCNC ) ; in_( l , lk , NCNC ) ;
  switch( op ) {
  case 0 : project_APE( s , st , l , alpha , al ) ; break ;
  case 1 : project_STOUT( s , st , l , alpha , al ) ; break ;
  case 2 : project_LOG( s , st , l , alpha , al ) ; break ;
  case 3 : project_STOUT_wflow_short( s , st , l , alpha ) ; break ;
  case 4 : project_LOG_wflow_short( s , st , l , alpha ) ; break ;
  default : return -1 ;
  }
  out_( o , s , NCNC ) ; return 0 ;
}

/* ------------------------------------------------------------------ gauge fixing */
int vs_gf( struct site *lat , int type , double acc , long iters , const char *infile )
{
  struct gf_info G ; G.type = type ; G.accuracy = acc ; G.max_iters = iters ;
  return GF_wrap( infile , lat , G ) ;
}
long vs_landau( struct site *lat , double acc , long iters , const char *infile ) { return Landau( lat , acc , iters , infile ) ; }
long vs_coulomb( struct site *lat , double acc , long iters ) { return Coulomb( lat , acc , iters ) ; }
long vs_or( int op , struct site *lat , double *th , long it , double acc , double w )
{ return op == 0 ? OrLandau( lat , th , it , acc , w ) : OrCoulomb( lat , th , it , acc , w ) ; }
int vs_axial( struct site *lat , int dir ) { return axial_gauge( lat , dir ) ; }
int vs_mag( struct site *lat ) { return mag( lat ) ; }
int vs_residual( struct site *lat ) { return residual_fix( lat ) ; }

/* ------------------------------------------------------------------ updates, RNG */
int vs_update( int op , struct site *lat , double invbeta , long nsweep )
{ /* 0 heat bath, 1 over-relaxation, 2 and 3 the same inside a parallel region, as the driver does */
  struct draughtboard db ; long k ;
#ifdef IMPROVED_SMEARING
  if( init_improved_cb( &db ) != GLU_SUCCESS ) return -2 ;
#else
  if( init_cb( &db , Latt.Volume , ND ) != GLU_SUCCESS ) return -2 ;
#endif
  if( op < 2 ) {
    for( k = 0 ; k < nsweep ; k++ ) { if( op == 0 ) hb_lattice( lat , invbeta , db ) ; else OR_lattice( lat , db ) ; }
  } else {
    #pragma omp parallel private(k)
    for( k = 0 ; k < nsweep ; k++ ) { if( op == 2 ) hb_lattice( lat , invbeta , db ) ; else OR_lattice( lat , db ) ; }
  }
  free_cb( &db ) ; return 0 ;
}
int vs_hb_update( struct site *lat , double beta , long iters , long nmeas , long nor , long nsave , long therm ,
		  int cont , const char *name , int storage , const char *details )
{
  struct hb_info H ;
  H.beta = beta ; H.iterations = iters ; H.Nmeasure = nmeas ; H.Nor = nor ; H.Nsave = nsave ; H.therm = therm ; H.continuation = cont ;
  return hb_update( lat , H , name , storage , details ) ;
}
int vs_rng_init( const char *f ) { return initialise_par_rng( f ) ; }
void vs_rng_free( void ) { free_par_rng( ) ; }
void vs_rng_dbl( int th , long n , double *o ) { long i ; for( i = 0 ; i < n ; i++ ) o[i] = par_rng_dbl( th ) ; }
void vs_rng_int( int th , long n , uint32_t *o ) { long i ; for( i = 0 ; i < n ; i++ ) o[i] = par_rng_int( th ) ; }
void vs_rng_polar( int th , long n , double *o ) { long i ; for( i = 0 ; i < n ; i++ ) o[i] = par_polar( th ) ; }
void vs_rng_box( int th , long n , dc *o ) { long i ; for( i = 0 ; i < n ; i++ ) o[i] = par_polar_box( th ) ; }
void vs_rng_mat( int op , int th , dc *o )
{
  AL(a) ; if( op == 0 ) par_generate_NCxNC( a , th ) ; else Sunitary_gen( a , th ) ; out_( o , a , NCNC ) ;
}
void vs_rng_write( const char *f ) { write_par_rng_state( f ) ; }
int vs_rng_read( const char *f ) { return read_par_rng_state( f ) ; }

/* ------------------------------------------------------------------ U(1) */
int vs_u1( struct site *lat , double alpha , double charge , int meas )
{
  struct u1_info U ; U.alpha = alpha ; U.charge = charge ; U.meas = meas ; return suNC_cross_u1( lat , U ) ;
}
static GLU_complex **mku( const dc *u )
{ /* field given as [V][ND]: stored direction-major as the library does */
  GLU_complex **p = malloc( ND * sizeof( *p ) ) ; int mu ; size_t i ;
  for( mu = 0 ; mu < ND ; mu++ ) { GLU_malloc( (void**)&p[mu] , ALIGNMENT , Latt.Volume * sizeof( GLU_complex ) ) ;
    for( i = 0 ; i < Latt.Volume ; i++ ) p[mu][i] = u[ i*ND+mu ] ; }
  return p ;
}
void vs_u1_obs( const struct site *lat , const dc *u , int meas )
{
  GLU_complex **p = mku( u ) ; int mu ;
  compute_U1_obs( (const GLU_complex **)p , lat , meas ) ;
  for( mu = 0 ; mu < ND ; mu++ ) free( p[mu] ) ; free( p ) ;
}
void vs_u1_top( const dc *u , int *mono , int *sheet , double *q )
{
  GLU_complex **p = mku( u ) ; int mu ; *mono = *sheet = 0 ; *q = 0 ;
  U1_topological( mono , sheet , q , (const GLU_complex **)p ) ;
  for( mu = 0 ; mu < ND ; mu++ ) free( p[mu] ) ; free( p ) ;
}

/* ------------------------------------------------------------------ cuts */
static struct cut_info mkcut( int dir , int type , long max_mom , long max_t , const char *where , int def , long angle , double cyl )
{
  struct cut_info C ; memset( &C , 0 , sizeof C ) ;
  C.dir = dir ; C.type = type ; C.max_mom = max_mom ; C.max_t = max_t ; snprintf( C.where , 256 , "%s" , where ) ;
  C.definition = def ; C.angle = angle ; C.cyl_width = cyl ; return C ;
}
long vs_veclist( int dir , int type , long max_mom , int def , long angle , double cyl , int D , int configspace , long cap , long *idx , int *mom )
{
  struct cut_info C = mkcut( dir , type , max_mom , 1 , "." , def , angle , cyl ) ;
  size_t n = 0 , i ; int mu ;
  if( configspace ) simorb_ratios( ND ) ; // as its callers do
  struct veclist *l = compute_veclist( &n , C , D , configspace ) ;
  if( l == NULL ) return -1 ;
  if( (long)n > cap ) { free( l ) ; return -2 ; }
  for( i = 0 ; i < n ; i++ ) { idx[i] = l[i].idx ; for( mu = 0 ; mu < ND ; mu++ ) mom[ i*ND+mu ] = mu < D ? l[i].MOM[mu] : 0 ; }
  free( l ) ; return (long)n ;
}
int vs_cuts( struct site *lat , int dir , int type , long max_mom , long max_t , const char *where , int def , long angle ,
	      double cyl , int smdir , long smiters , int smtype )
{
  struct cut_info C = mkcut( dir , type , max_mom , max_t , where , def , angle , cyl ) ;
  struct sm_info S ; S.dir = smdir ; S.smiters = smiters ; S.type = smtype ;
  return cuts_wrap_struct( lat , C , S ) ;
}
void vs_outstr( int dir , int type , long max_mom , long max_t , const char *where , int def , long angle , double cyl , char *o )
{
  struct cut_info C = mkcut( dir , type , max_mom , max_t , where , def , angle , cyl ) ;
  char *s = output_str_struct( C ) ; snprintf( o , 512 , "%s" , s ) ; free( s ) ;
}

/* ------------------------------------------------------------------ numerics */
void vs_spl_der( double *der , const double *x , const double *y , long N ) { spline_derivative( der , x , y , N ) ; }
double vs_spl_eval( const double *x , const double *y , const double *der , double mu , long N ) { return cubic_eval( x , y , der , mu , N ) ; }
double vs_spl_min( const double *x , const double *y , const double *der , long up ) { return cubic_min( x , y , der , up ) ; }
double vs_spl_solve( const double *x , const double *y , const double *der , double mu , long up ) { return solve_spline( x , y , der , mu , up ) ; }
double vs_sum( int op , const double *a , long lo , long hi )
{
  switch( op ) {
  case 0 : return dandc_sum( a , lo , hi ) ;
  case 1 : return kahan_summation( a , hi ) ;
  case 2 : return knuth_average( a , hi ) ;
  case 3 : return par_danc_sum ? par_danc_sum( a , hi ) : par_dandc_sum ? par_dandc_sum( a , hi ) : 0.0/0.0 ;
  }
  return 0 ;
}
void vs_bswap( int w , long n , void *p ) { if( w == 16 ) bswap_16( n , p ) ; else if( w == 32 ) bswap_32( n , p ) ; else bswap_64( n , p ) ; }
unsigned vs_crc32( unsigned c , const unsigned char *b , long n ) { return crc32( c , b , n ) ; }
void vs_cksum_add( void *p , unsigned n ) { CKSUM_ADD( p , n ) ; }
void vs_cksum_get( unsigned *o ) { uint32_t a = 0 , b = 0 ; CKSUM_GET( &a , &b ) ; o[0] = a ; o[1] = b ; }
void vs_cksum( void *p , unsigned n , unsigned *o ) { uint32_t a = 0 , b = 0 ; CKSUM_ADD( p , n ) ; CKSUM_GET( &a , &b ) ; o[0] = a ; o[1] = b ; }

/* ------------------------------------------------------------------ input file */
int vs_input( const char *path , double *o , char *s1 , char *s2 )
{
  struct infile_data INF ; memset( &INF , 0 , sizeof INF ) ; int mu ;
  int rc = get_input_data( &INF , path ) ;
  if( rc == GLU_FAILURE ) return rc ;
  int k = 0 ;
  o[k++] = INF.mode ; o[k++] = INF.head ; o[k++] = INF.rtrans ; o[k++] = INF.storage ;
  o[k++] = INF.CUTINFO.dir ; o[k++] = INF.CUTINFO.type ; o[k++] = INF.CUTINFO.max_mom ; o[k++] = INF.CUTINFO.max_t ;
  o[k++] = INF.CUTINFO.definition ; o[k++] = INF.CUTINFO.angle ; o[k++] = INF.CUTINFO.cyl_width ;
  o[k++] = INF.GFINFO.max_iters ; o[k++] = INF.GFINFO.accuracy ; o[k++] = INF.GFINFO.type ;
  o[k++] = INF.HBINFO.beta ; o[k++] = INF.HBINFO.iterations ; o[k++] = INF.HBINFO.Nmeasure ; o[k++] = INF.HBINFO.Nor ;
  o[k++] = INF.HBINFO.Nsave ; o[k++] = INF.HBINFO.therm ; o[k++] = INF.HBINFO.continuation ;
  o[k++] = INF.SMINFO.dir ; o[k++] = INF.SMINFO.smiters ; o[k++] = INF.SMINFO.type ;
  o[k++] = INF.U1INFO.alpha ; o[k++] = INF.U1INFO.charge ; o[k++] = INF.U1INFO.meas ;
  o[k++] = Latt.flow ; o[k++] = Latt.Seed[0] ; o[k++] = Latt.gf_alpha ; o[k++] = Latt.head ;
  for( mu = 0 ; mu < ND-1 ; mu++ ) o[k++] = Latt.sm_alpha[mu] ;
  for( mu = 0 ; mu < ND ; mu++ ) o[k++] = Latt.dims[mu] ;
  snprintf( s1 , 256 , "%s" , INF.CUTINFO.where ) ; snprintf( s2 , 256 , "%s" , INF.output_details ) ;
  return k ;
}
