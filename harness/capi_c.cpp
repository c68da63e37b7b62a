// the C view of the C interface: nothing of the C++ library is included here
extern "C" {
#include <qpOASES_wrapper.h>
}
#include "capi.h"
extern "C" {
int cConst[16] = { HST_ZERO,HST_IDENTITY,HST_POSDEF,HST_POSDEF_NULLSPACE,HST_SEMIDEF,HST_INDEF,HST_UNKNOWN, ST_LOWER,ST_INACTIVE,ST_UPPER,ST_INFEASIBLE_LOWER,ST_INFEASIBLE_UPPER,ST_UNDEFINED, PL_TABULAR,PL_NONE,PL_MEDIUM };
int cConst2[4] = { PL_DEBUG_ITER,PL_LOW,PL_HIGH,0 };
int cSizes[5] = { sizeof(real_t),sizeof(int_t),sizeof(uint_t),sizeof(fint_t),sizeof(sparse_int_t) };
long cSizeOpt = sizeof(qpOASES_Options);
static int_t setup( int cls, long n, long m, long h ) { return cls==0 ? QProblemB_setup( n,h ) : cls==1 ? QProblem_setup( n,m,h ) : SQProblem_setup( n,m,h ); }
static int_t cleanup( int cls ) { return cls==0 ? QProblemB_cleanup( ) : cls==1 ? QProblem_cleanup( ) : SQProblem_cleanup( ); }
static int_t init( int cls, const CQp* q, long* nWSR, double* cpu, const void* o, double* x, double* y, double* obj, long* st )
{
	const qpOASES_Options* opt = (const qpOASES_Options*)o;
	if ( cls==0 ) return QProblemB_init( q->H,q->g,q->lb,q->ub,nWSR,cpu,opt,x,y,obj,st );
	if ( cls==1 ) return QProblem_init( q->H,q->g,q->A,q->lb,q->ub,q->lbA,q->ubA,nWSR,cpu,opt,x,y,obj,st );
	return SQProblem_init( q->H,q->g,q->A,q->lb,q->ub,q->lbA,q->ubA,nWSR,cpu,opt,x,y,obj,st );
}
static int_t hot( int cls, const CQp* q, long* nWSR, double* cpu, double* x, double* y, double* obj, long* st )
{
	if ( cls==0 ) return QProblemB_hotstart( q->g,q->lb,q->ub,nWSR,cpu,x,y,obj,st );
	if ( cls==1 ) return QProblem_hotstart( q->g,q->lb,q->ub,q->lbA,q->ubA,nWSR,cpu,x,y,obj,st );
	return SQProblem_hotstart( q->H,q->g,q->A,q->lb,q->ub,q->lbA,q->ubA,nWSR,cpu,x,y,obj,st );
}
static int_t optInit( void* o, long mode ) { return qpOASES_Options_init( (qpOASES_Options*)o,mode ); }
static int_t optCopy( const void* a, void* b ) { return qpOASES_Options_copy( (const qpOASES_Options*)a,(int_t*)b ); }
static void setPrint( void* o, long p ) { ((qpOASES_Options*)o)->printLevel = p; }
CApi cApi = { setup,cleanup,init,hot,optInit,optCopy,setPrint };
}
