/* The scripted surroundings of hmactools: input layer, interrupts, faults, event log */
#if !defined( VP_TOOL_H )
#define VP_TOOL_H
#include <stddef.h>
#include <stdint.h>
#include "vp_wrap.h"
#define VP_KIND_LIB   8    /* operations of libhmac */
#define VP_KIND_SIG   16   /* signal set-up */
#define VP_KIND_SETUP 32   /* locale set-up, splitting of strings */
typedef struct
{
	int pattern; uint64_t content, reported; /* the file */
	const uint8_t *literal;
	int open_fails, size_fails, close_fails, init_fails;
	long reads[ 256 ]; int nreads;   /* most bytes a read gives, -1 error, 0 end */
	int rec;                         /* libhmac replaced by a recorder */
	long intat; int heap;            /* interrupt at this point; heap operations are points too */
	char inton[ 16 ]; long inton_occ; /* or at an occurrence of a kind of point */
	int again;                       /* and at every later point */
	int decimal;
} vp_script_t;
extern vp_script_t vp_script;
extern char *vp_log;
extern int vp_log_full;
extern size_t vp_log_size, vp_log_max;
void vp_event( const char *format, ... );
void vp_point( const char *kind );
long vp_points( void );
int vp_handles( void );
const char *vp_fault_name( void );
uint8_t vp_pattern( int p, uint64_t i );
#endif
