/* A stand-in for the OpenMP runtime that runs the threads of a team as coroutines under a generated schedule.
   The library is compiled with -fsanitize=thread, whose hooks at every memory access are the points where one thread
   may be stopped and another resumed; which, and after how many accesses, is drawn from a seeded generator. Nothing of the
   sanitizer's own runtime is used: the oracle is the result of the computation. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>

#define MAXT 64
#define STK (8UL<<20)
#define NWS 256
static int nth = 1 , cur = -1 , team = 0 ;
static long quantum = 0 , mean = 1000 ;
static uint64_t rs = 88172645463325252ULL ;
static unsigned long switches = 0 , regions = 0 ;
static uint64_t rnd( void ) { rs ^= rs << 13 ; rs ^= rs >> 7 ; rs ^= rs << 17 ; return rs ; }
struct ws { long next , end , incr , chunk ; uint64_t unext , uend , uincr , uchunk ; int up , init , left ; } ;
static struct co { ucontext_t u ; void *stk ; int done , blocked ; long sc , lc ; } T[ MAXT ] ;
static ucontext_t mainc ;
static void (*tfn)( void* ) ; static void *tdata ;
static long single , arrived , bgen , stuck ;
static struct ws W[ NWS ] ; static long wsn ;

void vs_sched( unsigned long seed , long m ) { rs = seed * 6364136223846793005ULL + 1442695040888963407ULL ; if( !rs ) rs = 1 ; rnd( ) ; rnd( ) ; mean = m > 0 ? m : 1 ; switches = regions = 0 ; }
unsigned long vs_sched_switches( void ) { return switches ; }

static void yield( void ) { const int me = cur ; swapcontext( &T[me].u , &mainc ) ; }
static inline void tick( void ) { if( cur >= 0 && team > 1 && --quantum <= 0 ) { switches++ ; yield( ) ; } }
static void entry( void ) { tfn( tdata ) ; T[cur].done = 1 ; yield( ) ; abort( ) ; }
static void wait_( void ) { T[cur].blocked = 1 ; yield( ) ; }

void GOMP_parallel( void (*fn)( void* ) , void *data , unsigned n , unsigned flags )
{
  if( cur >= 0 || n == 1 || ( n == 0 && nth == 1 ) ) { // nested, or a team of one
    const int c = cur , t = team , o = ( c < 0 ) ;
    if( o ) { fn( data ) ; return ; }
    cur = 0 ; team = 1 ; fn( data ) ; cur = c ; team = t ; return ;
  }
  if( n == 0 ) n = nth ;
  if( n > MAXT ) n = MAXT ;
  int i , live = n ; regions++ ;
  tfn = fn ; tdata = data ; single = 0 ; arrived = 0 ; bgen = 0 ; wsn = 0 ; stuck = 0 ; team = n ; memset( W , 0 , sizeof W ) ;
  for( i = 0 ; i < (int)n ; i++ ) {
    if( !T[i].stk ) { T[i].stk = mmap( NULL , STK , PROT_READ|PROT_WRITE , MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE , -1 , 0 ) ; if( T[i].stk == MAP_FAILED ) abort( ) ; mprotect( T[i].stk , 4096 , PROT_NONE ) ; }
    getcontext( &T[i].u ) ; T[i].u.uc_stack.ss_sp = T[i].stk ; T[i].u.uc_stack.ss_size = STK ; T[i].u.uc_link = NULL ;
    T[i].done = T[i].blocked = 0 ; T[i].sc = T[i].lc = 0 ; makecontext( &T[i].u , entry , 0 ) ;
  }
  while( live ) {
    int k = rnd( ) % n ; while( T[k].done ) k = ( k + 1 ) % n ;
    if( T[k].blocked ) { if( ++stuck > 20000 ) { fprintf( stderr , "deadlock: every thread of the team waits\n" ) ; fflush( NULL ) ; _exit( 78 ) ; } }
    else stuck = 0 ;
    T[k].blocked = 0 ; quantum = 1 + rnd( ) % ( 2 * mean ) ; cur = k ; team = n ;
    swapcontext( &mainc , &T[k].u ) ;
    cur = -1 ;
    if( T[k].done ) live-- ;
  }
  team = 0 ;
}
void GOMP_barrier( void )
{
  if( cur < 0 || team <= 1 ) return ;
  const long g = bgen ;
  if( ++arrived == team ) { arrived = 0 ; bgen++ ; return ; }
  while( bgen == g ) wait_( ) ;
}
bool GOMP_single_start( void ) { if( cur < 0 || team <= 1 ) return true ; if( ++T[cur].sc > single ) { single = T[cur].sc ; return true ; } return false ; }
static void *crit ;
void GOMP_critical_name_start( void **p ) { if( cur < 0 || team <= 1 ) return ; while( *p ) wait_( ) ; *p = (void*)1 ; }
void GOMP_critical_name_end( void **p ) { *p = NULL ; }
void GOMP_critical_start( void ) { GOMP_critical_name_start( &crit ) ; }
void GOMP_critical_end( void ) { crit = NULL ; }
static void *atom ;
void GOMP_atomic_start( void ) { GOMP_critical_name_start( &atom ) ; }
void GOMP_atomic_end( void ) { atom = NULL ; }
/* locks */
void omp_init_lock( int *l ) { *l = 0 ; }
void omp_destroy_lock( int *l ) { *l = 0 ; }
void omp_set_lock( int *l ) { while( *l ) { if( cur < 0 || team <= 1 ) { fprintf( stderr , "deadlock: a lock held by the same thread\n" ) ; _exit( 78 ) ; } wait_( ) ; } *l = 1 ; }
void omp_unset_lock( int *l ) { *l = 0 ; }
int omp_test_lock( int *l ) { if( *l ) return 0 ; *l = 1 ; return 1 ; }
/* queries */
int omp_get_num_threads( void ) { return cur < 0 ? 1 : team ; }
int omp_get_max_threads( void ) { return nth ; }
int omp_get_thread_num( void ) { return cur < 0 ? 0 : ( team <= 1 ? 0 : cur ) ; }
void omp_set_num_threads( int n ) { nth = n < 1 ? 1 : ( n > MAXT ? MAXT : n ) ; }
int omp_in_parallel( void ) { return cur >= 0 && team > 1 ; }
int omp_get_num_procs( void ) { return 8 ; }
int omp_get_level( void ) { return cur >= 0 ; }
void omp_set_dynamic( int d ) { }
void omp_set_nested( int d ) { }
double omp_get_wtime( void ) { return 0.0 ; }
/* shared loops */
static struct ws *nextws( void ) { struct ws *w ; static struct ws one ; if( cur < 0 || team <= 1 ) { w = &one ; w->init = 0 ; return w ; } w = &W[ T[cur].lc++ % NWS ] ; if( !w->left ) { w->left = team ; w->init = 0 ; } return w ; }
static struct ws *curws( void ) { return cur < 0 || team <= 1 ? NULL : &W[ ( T[cur].lc - 1 ) % NWS ] ; }
static struct ws *solo ;
static bool take( struct ws *w , long *s , long *e )
{
  if( w->incr > 0 ? w->next >= w->end : w->next <= w->end ) return false ;
  long n = w->next + w->incr * w->chunk ; if( w->incr > 0 ? n > w->end : n < w->end ) n = w->end ;
  *s = w->next ; *e = n ; w->next = n ; return true ;
}
static bool utake( struct ws *w , unsigned long long *s , unsigned long long *e )
{
  if( w->up ) { if( w->unext >= w->uend ) return false ; unsigned long long n = w->unext + w->uincr * w->uchunk ; if( n > w->uend || n < w->unext ) n = w->uend ; *s = w->unext ; *e = n ; w->unext = n ; return true ; }
  if( w->unext <= w->uend ) return false ; unsigned long long n = w->unext + w->uincr * w->uchunk ; if( n < w->uend || n > w->unext ) n = w->uend ; *s = w->unext ; *e = n ; w->unext = n ; return true ;
}
static bool lstart( long s , long e , long i , long c , long *a , long *b )
{ struct ws *w = nextws( ) ; if( cur < 0 || team <= 1 ) solo = w ; if( !w->init ) { w->init = 1 ; w->next = s ; w->end = e ; w->incr = i ; w->chunk = c > 0 ? c : 1 ; } tick( ) ; return take( w , a , b ) ; }
static bool lnext( long *a , long *b ) { struct ws *w = curws( ) ; tick( ) ; return take( w ? w : solo , a , b ) ; }
static bool ustart( bool up , unsigned long long s , unsigned long long e , unsigned long long i , unsigned long long c , unsigned long long *a , unsigned long long *b )
{ struct ws *w = nextws( ) ; if( cur < 0 || team <= 1 ) solo = w ; if( !w->init ) { w->init = 1 ; w->unext = s ; w->uend = e ; w->uincr = i ; w->uchunk = c ? c : 1 ; w->up = up ; } tick( ) ; return utake( w , a , b ) ; }
static bool unext_( unsigned long long *a , unsigned long long *b ) { struct ws *w = curws( ) ; tick( ) ; return utake( w ? w : solo , a , b ) ; }
#define LOOPS(X) \
bool GOMP_loop_##X##_start( long s , long e , long i , long c , long *a , long *b ) { return lstart( s , e , i , c , a , b ) ; } \
bool GOMP_loop_##X##_next( long *a , long *b ) { return lnext( a , b ) ; } \
bool GOMP_loop_ull_##X##_start( bool up , unsigned long long s , unsigned long long e , unsigned long long i , unsigned long long c , unsigned long long *a , unsigned long long *b ) { return ustart( up , s , e , i , c , a , b ) ; } \
bool GOMP_loop_ull_##X##_next( unsigned long long *a , unsigned long long *b ) { return unext_( a , b ) ; }
LOOPS(dynamic) LOOPS(nonmonotonic_dynamic) LOOPS(guided) LOOPS(nonmonotonic_guided)
void GOMP_loop_end_nowait( void ) { struct ws *w = curws( ) ; if( w && w->left ) w->left-- ; }
void GOMP_loop_end( void ) { GOMP_loop_end_nowait( ) ; GOMP_barrier( ) ; }
unsigned GOMP_sections_start( unsigned n ) { long a , b ; return lstart( 1 , (long)n + 1 , 1 , 1 , &a , &b ) ? a : 0 ; }
unsigned GOMP_sections_next( void ) { long a , b ; return lnext( &a , &b ) ? a : 0 ; }
void GOMP_sections_end( void ) { GOMP_loop_end( ) ; }
void GOMP_sections_end_nowait( void ) { GOMP_loop_end_nowait( ) ; }

/* the hooks of -fsanitize=thread */
void __tsan_init( void ) { } void __tsan_func_entry( void *p ) { } void __tsan_func_exit( void ) { }
#define RW(N) void __tsan_read##N( void *p ) { tick( ) ; } void __tsan_write##N( void *p ) { tick( ) ; } \
  void __tsan_volatile_read##N( void *p ) { tick( ) ; } void __tsan_volatile_write##N( void *p ) { tick( ) ; } \
  void __tsan_unaligned_read##N( void *p ) { tick( ) ; } void __tsan_unaligned_write##N( void *p ) { tick( ) ; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range( void *p , unsigned long n ) { tick( ) ; } void __tsan_write_range( void *p , unsigned long n ) { tick( ) ; }
void __tsan_vptr_update( void **p , void *v ) { tick( ) ; } void __tsan_vptr_read( void **p ) { tick( ) ; }
typedef unsigned __int128 u128 ;
#define AT(B,Ty) Ty __tsan_atomic##B##_load( const volatile Ty *p , int m ) { tick( ) ; return *p ; } \
  void __tsan_atomic##B##_store( volatile Ty *p , Ty v , int m ) { tick( ) ; *p = v ; } \
  Ty __tsan_atomic##B##_exchange( volatile Ty *p , Ty v , int m ) { tick( ) ; Ty o = *p ; *p = v ; return o ; } \
  Ty __tsan_atomic##B##_fetch_add( volatile Ty *p , Ty v , int m ) { tick( ) ; Ty o = *p ; *p = o + v ; return o ; } \
  Ty __tsan_atomic##B##_fetch_sub( volatile Ty *p , Ty v , int m ) { tick( ) ; Ty o = *p ; *p = o - v ; return o ; } \
  Ty __tsan_atomic##B##_fetch_and( volatile Ty *p , Ty v , int m ) { tick( ) ; Ty o = *p ; *p = o & v ; return o ; } \
  Ty __tsan_atomic##B##_fetch_or( volatile Ty *p , Ty v , int m ) { tick( ) ; Ty o = *p ; *p = o | v ; return o ; } \
  Ty __tsan_atomic##B##_fetch_xor( volatile Ty *p , Ty v , int m ) { tick( ) ; Ty o = *p ; *p = o ^ v ; return o ; } \
  Ty __tsan_atomic##B##_fetch_nand( volatile Ty *p , Ty v , int m ) { tick( ) ; Ty o = *p ; *p = ~( o & v ) ; return o ; } \
  int __tsan_atomic##B##_compare_exchange_strong( volatile Ty *p , Ty *c , Ty v , int m , int f ) { tick( ) ; if( *p == *c ) { *p = v ; return 1 ; } *c = *p ; return 0 ; } \
  int __tsan_atomic##B##_compare_exchange_weak( volatile Ty *p , Ty *c , Ty v , int m , int f ) { tick( ) ; if( *p == *c ) { *p = v ; return 1 ; } *c = *p ; return 0 ; } \
  Ty __tsan_atomic##B##_compare_exchange_val( volatile Ty *p , Ty c , Ty v , int m , int f ) { tick( ) ; Ty o = *p ; if( o == c ) *p = v ; return o ; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t) AT(128,u128)
void __tsan_atomic_thread_fence( int m ) { } void __tsan_atomic_signal_fence( int m ) { }
