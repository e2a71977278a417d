/* Accounting, fault injection and wipe observation by link-time wrapping of the
 * resource operations that the code under test calls.
 */
#if !defined( VP_WRAP_H )
#define VP_WRAP_H
#include <stddef.h>
#include <stdint.h>

#define VP_KIND_MALLOC  1
#define VP_KIND_BACKEND 2
#define VP_KIND_MEMORY  4   /* memcpy and memset report failure (in builds that keep the calls) */
#define VP_KIND_PYTHON  64 /* the interpreter has no memory for a bytes object */

void vp_call_begin( int kinds, long fault_at );  /* fault_at: 0 none, k: the k-th operation fails */
int  vp_call_end( void );                        /* 1 if the fault was reached */
long vp_ops( void );                             /* resource operations seen in the last call */
long vp_live( void );                            /* blocks and back end contexts outstanding */
void vp_secrets_clear( void );
void vp_secret_add( const uint8_t *data, size_t size );
long vp_dirty( void );                           /* blocks that held a secret when released */
int  vp_fail( int kind );                        /* for back ends that are not wrapped: 1 if this operation fails */
void vp_note( void *p, int delta );
#endif
