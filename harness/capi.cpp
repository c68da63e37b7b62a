// C25: the plain C interface does what the C++ classes do.
#include "drv.hpp"
#include "capi.h"
extern "C" {
#include <qpOASES_wrapper.h>
}
static const char* RULE = "All call histories up to the depth over {set-up with several sizes and Hessian hints, cleanup, initialise (solvable, infeasible, unbounded, interrupted; each option mode or none), hotstart (incl. absent limits and, for SQProblem, new matrices)} of the three global C objects, alone and interleaved, compared bit by bit with C++ objects driven by the same calls; "
	"option modes, every single option member, every constant and size of the C header, all set-up arguments in [-1,3]x[-1,2]x[-2,8].";
static const PrintLevel QUIET = ::PL_NONE;

// ---------------------------------------------------------------- reference: the three C++ objects
struct Ref
{
	QProblemB* b; QProblem* q; SQProblem* s; int n[3],m[3];
	Ref( ) { b=0; q=0; s=0; memset( n,0,sizeof(n) ); memset( m,0,sizeof(m) ); }
	bool has( int c ) const { return c==0?b!=0:c==1?q!=0:s!=0; }
	void clean( int c ) { if ( c==0 ) { delete b; b=0; } else if ( c==1 ) { delete q; q=0; } else { delete s; s=0; } }
	void make( int c, int nn, int mm, HessianType h ) { clean( c ); n[c]=nn; m[c]=c?mm:0; if ( c==0 ) b = new QProblemB( nn,h ); else if ( c==1 ) q = new QProblem( nn,mm,h ); else s = new SQProblem( nn,mm,h ); }
	QProblemB* any( int c ) { return c==0 ? b : c==1 ? q : s; }
	~Ref( ) { for( int c=0; c<3; ++c ) clean( c ); }
};
static int simple( returnValue r )
{
	switch( r ) { case SUCCESSFUL_RETURN: return 0; case RET_MAX_NWSR_REACHED: return 1; case RET_INIT_FAILED_INFEASIBILITY: case RET_HOTSTART_STOPPED_INFEASIBILITY: return -2; case RET_INIT_FAILED_UNBOUNDEDNESS: case RET_HOTSTART_STOPPED_UNBOUNDEDNESS: return -3; default: return -1; }
}
static Options refOpt( int mode ) { Options o; if ( mode==0 ) o.setToDefault( ); else if ( mode==1 ) o.setToReliable( ); else o.setToMPC( ); o.printLevel=QUIET; return o; }

static QP mkQP( int n, int m, int k )
{
	QP q; q.n=n; q.m=m;
	for( int i=0; i<n; ++i )
	{
		for( int j=0; j<n; ++j ) q.H[i*n+j] = k==3 ? ( i==j && i ) : i==j ? 2+i : k==5 ? 0 : 1;
		static const double G[6][4] = {{-1,2,1,0},{3,-1,-2,1},{1,1,1,1},{-1,0,0,0},{-4,-4,1,2},{-1,1,2,3}}; q.g[i]=G[k][i];
		static const double L[6]={-1,0,-2,-1e20,-1,-1}, U[6]={1,2,-1,1e20,1e20,1}; q.lb[i]=L[k]; q.ub[i]=U[k];
	}
	for( int i=0; i<m; ++i ) { for( int j=0; j<n; ++j ) q.A[i*n+j] = k==5 ? 1-(i+j)%2*2 : i==j || j==n-1; static const double L[6]={-1e20,1,1,-1,-1,0}, U[6]={0.5,2,2,1e20,0,0}; q.lbA[i]=L[k]; q.ubA[i]=U[k]; }
	if ( k==3 ) for( int i=0; i<m; ++i ) for( int j=0; j<n; ++j ) q.A[i*n+j] = j==n-1;
	return q;
}
// ops: 0..3 setup, 4 cleanup, 5.. init (data, mode, limit), .. hotstart (data, limit, null)
struct Op { const char* nm; int kind,a,b,c; };      // kind 0 setup n,m,h ; 1 cleanup ; 2 init data,mode(-1 none),limit ; 3 hot data,limit,variant
static const Op OPS[] = {
	{"setup(2,1)",0,2,1,6}, {"setup(1,2,posdef)",0,1,2,2}, {"setup(3,0)",0,3,0,6}, {"setup(2,1,identity)",0,2,1,1}, {"setupBad",0,0,1,6}, {"setupBadH",0,2,1,7}, {"cleanup",1,0,0,0},
	{"init0",2,0,0,100}, {"init1rel",2,1,1,100}, {"init4mpc",2,4,2,100}, {"init2infeas",2,2,0,100}, {"init3unb",2,3,0,100}, {"init1noopt",2,1,-1,100}, {"init4cut",2,4,0,1}, {"init1cut0mpc",2,1,2,0},
	{"hot1",3,1,100,0}, {"hot4",3,4,100,0}, {"hot2infeas",3,2,100,0}, {"hot4cut",3,4,1,0}, {"hot0null",3,0,100,1}, {"hot5mat",3,5,100,0}, {"hot1noG",3,1,100,2}, {"init0noG",2,0,0,-100} };
enum { NOP = sizeof(OPS)/sizeof(OPS[0]) };

static char optMem[3][4096];
static void hist( const std::vector<std::pair<int,int> >& h )
{
	std::string ks; for( auto& p : h ) ks += std::string( p.first==0?"B":p.first==1?"Q":"S" ) + "." + OPS[p.second].nm + " "; mc::key( ks );
	for( int c=0; c<3; ++c ) cApi.cleanup( c );
	Ref r; std::string out; bool deep=false;
	for( size_t i=0; i<h.size( ); ++i )
	{
		int c=h[i].first; const Op& o=OPS[h[i].second]; long rc; long want; mc::transition( );
		double x[16],y[32],obj=-77,t1=-5,t2=-5; long st=-99,n=o.kind==2?o.c:o.b; double rx[16],ry[32],robj=-77; long rst=-99; int_t rn;
		for( int k=0; k<16; ++k ) x[k]=rx[k]=-55; for( int k=0; k<32; ++k ) y[k]=ry[k]=-66;
		bool noG = o.kind==2 && o.c==-100; if ( noG ) n=100; rn=n;
		if ( o.kind==0 )
		{
			want = o.a<1 || o.c>6 ? -1 : 0; rc = cApi.setup( c,o.a,o.b,o.c );
			if ( !want ) r.make( c,o.a,o.b,(HessianType)o.c );
		}
		else if ( o.kind==1 ) { want=0; rc=cApi.cleanup( c ); r.clean( c ); }
		else
		{
			int nn = r.has( c )?r.n[c]:2, mm = r.has( c )?r.m[c]:1; QP q=mkQP( nn,mm,o.a ); CQp cq={ q.H,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA };
			if ( noG || ( o.kind==3 && o.c==2 ) ) cq.g=0;
			if ( o.kind==3 && o.c==1 ) { cq.lb=0; cq.ubA=0; }
			bool withTime = (i&1)==0; returnValue rv=SUCCESSFUL_RETURN; want = r.has( c )?0:-1;
			if ( o.kind==2 )
			{
				rc = cApi.init( c,&cq,&n,withTime?&t1:0,o.b<0?0:optMem[o.b],x,y,&obj,&st );
				if ( !want )
				{
					if ( o.b>=0 ) r.any( c )->setOptions( refOpt( o.b ) );
					if ( c==0 ) rv=r.b->init( cq.H,cq.g,cq.lb,cq.ub,rn,withTime?&t2:0 ); else if ( c==1 ) rv=r.q->init( cq.H,cq.g,cq.A,cq.lb,cq.ub,cq.lbA,cq.ubA,rn,withTime?&t2:0 ); else rv=r.s->init( cq.H,cq.g,cq.A,cq.lb,cq.ub,cq.lbA,cq.ubA,rn,withTime?&t2:0 );
				}
			}
			else
			{
				rc = cApi.hot( c,&cq,&n,withTime?&t1:0,x,y,&obj,&st );
				if ( !want )
				{
					if ( c==0 ) rv=r.b->hotstart( cq.g,cq.lb,cq.ub,rn,withTime?&t2:0 ); else if ( c==1 ) rv=r.q->hotstart( cq.g,cq.lb,cq.ub,cq.lbA,cq.ubA,rn,withTime?&t2:0 ); else rv=r.s->hotstart( cq.H,cq.g,cq.A,cq.lb,cq.ub,cq.lbA,cq.ubA,rn,withTime?&t2:0 );
				}
			}
			if ( !want )
			{
				r.any( c )->getPrimalSolution( rx ); if ( c==0 ) r.b->getDualSolution( ry ); else if ( c==1 ) r.q->getDualSolution( ry ); else r.s->getDualSolution( ry );
				robj=r.any( c )->getObjVal( ); rst=simple( rv ); deep=true; mc::traceValidated( );
			}
			if ( n!=rn ) { mc::fail( "nWSR","C interface performed "+mc::fmt( "%ld changes, C++ %ld",n,(long)rn ) ); break; }
			if ( ( t1==-5 )!=( t2==-5 ) ) { mc::fail( "cputime",mc::fmt( "CPU time of the C interface %g, of C++ %g",t1,t2 ) ); break; }
		}
		if ( rc!=want ) { mc::fail( "return",mc::fmt( "call %d returned %ld, expected %ld",(int)i,rc,want ) ); break; }
		if ( st!=rst ) { mc::fail( "status",mc::fmt( "call %d: status %ld, expected %ld",(int)i,st,rst ) ); break; }
		if ( memcmp( x,rx,sizeof(x) ) || memcmp( y,ry,sizeof(y) ) || memcmp( &obj,&robj,sizeof(obj) ) ) { mc::fail( "outputs",mc::fmt( "call %d: x=",(int)i )+vec( x,3 )+"/"+vec( rx,3 )+" y="+vec( y,4 )+"/"+vec( ry,4 )+mc::fmt( " obj %g/%g",obj,robj ) ); break; }
		out += mc::fmt( "%ld,%ld,%ld,%g;",rc,st,n,obj ); mc::state( mc::hashStr( out ) );
	}
	mc::evaluation( ); mc::outcome( out,deep ); mc::sample( ks+": "+out );
	for( int c=0; c<3; ++c ) cApi.cleanup( c );
}

// ---------------------------------------------------------------- options
#define MEMBERS \
 M(enableRamping,2) M(enableFarBounds,2) M(enableFlippingBounds,2) M(enableRegularisation,2) M(enableFullLITests,2) M(enableNZCTests,2) M(enableDriftCorrection,1) M(enableCholeskyRefactorisation,1) M(enableEqualities,2) \
 M(terminationTolerance,0) M(boundTolerance,0) M(boundRelaxation,0) M(epsNum,0) M(epsDen,0) M(maxPrimalJump,0) M(maxDualJump,0) M(initialRamping,0) M(finalRamping,0) M(initialFarBounds,0) M(growFarBounds,0) M(initialStatusBounds,3) \
 M(epsFlipping,0) M(numRegularisationSteps,1) M(epsRegularisation,0) M(numRefinementSteps,1) M(epsIterRef,0) M(epsLITests,0) M(epsNZCTests,0) M(rcondSMin,0) M(enableInertiaCorrection,2) M(enableDropInfeasibles,2) M(dropBoundPriority,1) M(dropEqConPriority,1) M(dropIneqConPriority,1) M(printLevel,4)
static std::vector<std::pair<std::string,double> > memC( const qpOASES_Options& o ) { std::vector<std::pair<std::string,double> > r; 
#define M(a,k) r.push_back( std::make_pair( std::string( #a ),(double)o.a ) );
MEMBERS
#undef M
return r; }
static std::vector<std::pair<std::string,double> > memX( const Options& o ) { std::vector<std::pair<std::string,double> > r;
#define M(a,k) r.push_back( std::make_pair( std::string( #a ),(double)o.a ) );
MEMBERS
#undef M
return r; }
static std::string diff( const std::vector<std::pair<std::string,double> >& a, const std::vector<std::pair<std::string,double> >& b ) { for( size_t i=0; i<a.size( ); ++i ) if ( a[i].second!=b[i].second ) return a[i].first+mc::fmt( " %.12g/%.12g",a[i].second,b[i].second ); return ""; }
static int nMem( ) { int k=0;
#define M(a,kk) ++k;
MEMBERS
#undef M
return k; }
template<class T,class U> static void bump( T& v, const U&, int kind, int var ) { double d=(double)v; d = kind==0 ? d*1.5+0.25*( var+1 ) : kind==1 ? d+2+var : kind==2 ? 1-d : kind==3 ? ( d==0?1:0 ) : ( var?3:-1 ); v=(T)d; }
static void options( mc::u64 i )
{
	mc::Dec d( i ); int fill=d( 2 ); int mode=d( 7 )-2; int mem=d( nMem( )+1 )-1; int var=d( 2 );
	mc::key( mc::fmt( "options mode %d, member %d changed (variant %d), struct pre-filled %d",mode,mem,var,fill ) );
	qpOASES_Options o; memset( (void*)&o,fill?0x5a:0xff,sizeof(o) ); std::vector<char> before( (char*)&o,(char*)&o+sizeof(o) );
	long rc=cApi.optInit( &o,mode ); mc::evaluation( ); mc::transition( );
	if ( cApi.optInit( 0,mode )!=-1 ) return mc::fail( "options null","NULL options struct accepted" );
	if ( mode<0 || mode>2 ) { if ( rc!=-1 || memcmp( before.data( ),&o,sizeof(o) ) ) mc::fail( "options mode",mc::fmt( "invalid mode %d: returned %ld",mode,rc ) ); return; }
	if ( rc!=0 ) return mc::fail( "options init",mc::fmt( "mode %d: returned %ld",mode,rc ) );
	Options r; if ( mode==0 ) r.setToDefault( ); else if ( mode==1 ) r.setToReliable( ); else r.setToMPC( );
	std::string w=diff( memC( o ),memX( r ) ); if ( w!="" ) return mc::fail( "options values",mc::fmt( "mode %d: ",mode )+w );
	if ( o.printResiduals!=0 ) return mc::fail( "options values","printResiduals not initialised" );
	if ( mem>=0 )
	{
		int k=0;
		#define M(a,kind) if ( k++==mem ) { bump( o.a,0,kind,var ); bump( r.a,0,kind,var ); }
		MEMBERS
		#undef M
	}
	Options to; to.setToFast( ); memset( (void*)&to.printLevel,0x5a,4 ); std::vector<std::pair<std::string,double> > oc=memC( o );
	if ( cApi.optCopy( &o,&to )!=0 ) return mc::fail( "options copy","copy failed" );
	w=diff( memX( to ),memX( r ) ); if ( w!="" ) return mc::fail( "options copy","copied options differ: "+w );
	w=diff( memC( o ),oc ); if ( w!="" ) return mc::fail( "options copy","source changed: "+w );
	if ( cApi.optCopy( 0,&to )!=-1 || cApi.optCopy( &o,0 )!=-1 ) return mc::fail( "options copy","NULL accepted" );
	w=diff( memX( to ),memX( r ) ); if ( w!="" ) return mc::fail( "options copy","rejected copy changed the target: "+w );
	mc::traceValidated( ); std::string s; for( auto& p : memX( to ) ) s+=mc::fmt( "%g ",p.second ); mc::outcome( s ); mc::state( mc::hashStr( s ) );
}
static void constants( mc::u64 )
{
	mc::key( "constants of the C header" ); mc::evaluation( );
	// values as in the C++ enums (names resolved in the library namespace)
	static const int X[16] = { HST_ZERO,HST_IDENTITY,HST_POSDEF,HST_POSDEF_NULLSPACE,HST_SEMIDEF,HST_INDEF,HST_UNKNOWN, ST_LOWER,ST_INACTIVE,ST_UPPER,ST_INFEASIBLE_LOWER,ST_INFEASIBLE_UPPER,ST_UNDEFINED, PL_TABULAR,PL_NONE,PL_MEDIUM }, X2[4] = { PL_DEBUG_ITER,PL_LOW,PL_HIGH,0 };
	for( int i=0; i<16; ++i ) if ( X[i]!=cConst[i] ) mc::fail( "constants",mc::fmt( "constant %d is %d, in C++ %d",i,cConst[i],X[i] ) );
	for( int i=0; i<4; ++i ) if ( X2[i]!=cConst2[i] ) mc::fail( "constants",mc::fmt( "constant %d is %d, in C++ %d",16+i,cConst2[i],X2[i] ) );
	static const int Z[5] = { sizeof(real_t),sizeof(int_t),sizeof(uint_t),sizeof(fint_t),sizeof(sparse_int_t) };
	for( int i=0; i<5; ++i ) if ( Z[i]!=cSizes[i] ) mc::fail( "constants",mc::fmt( "size of type %d is %d, in C++ %d",i,cSizes[i],Z[i] ) );
	if ( cSizeOpt!=(long)sizeof(qpOASES_Options) ) mc::fail( "constants","options struct differs between C and C++" );
}
static void setupArgs( mc::u64 i )
{
	mc::Dec d( i ); int c=d( 3 ),pre=d( 2 ); long n=d( 5 )-1,m=d( 4 )-1,h=d( 11 )-2;
	mc::key( mc::fmt( "class %d setup(%ld,%ld,%ld)%s",c,n,m,h,pre?" with an existing object":"" ) ); mc::evaluation( ); mc::transition( );
	for( int k=0; k<3; ++k ) cApi.cleanup( k );
	if ( pre && cApi.setup( c,2,1,6 )!=0 ) return mc::fail( "setup","valid set-up rejected" );
	bool ok = n>=1 && ( c==0 || m>=0 ) && h>=0 && h<=6; long rc=cApi.setup( c,n,m,h );
	if ( rc!=( ok?0:-1 ) ) { mc::fail( "setup",mc::fmt( "returned %ld",rc ) ); return; }
	int nn = ok?n:2, mm = c?( ok?m:1 ):0; QP q=mkQP( nn,mm,0 ); CQp cq={ q.H,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA }; double x[8]={0},y[16]={0},obj=0; long st=-9,nW=100;
	long ri=cApi.init( c,&cq,&nW,0,optMem[0],x,y,&obj,&st );
	if ( ri!=( ok||pre?0:-1 ) ) { mc::fail( "setup then init",mc::fmt( "init returned %ld",ri ) ); return; }
	if ( ri==0 )
	{
		Ref r; r.make( c,nn,mm,ok?(HessianType)h:HST_UNKNOWN ); r.any( c )->setOptions( refOpt( 0 ) ); int_t rn=100; returnValue rv;
		if ( c==0 ) rv=r.b->init( q.H,q.g,q.lb,q.ub,rn ); else if ( c==1 ) rv=r.q->init( q.H,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA,rn ); else rv=r.s->init( q.H,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA,rn );
		double rx[8]={0}; r.any( c )->getPrimalSolution( rx ); if ( nW!=rn || st!=simple( rv ) || obj!=r.any( c )->getObjVal( ) || memcmp( x,rx,sizeof(x) ) ) mc::fail( "setup then init",mc::fmt( "status %ld/%d changes %ld/%ld obj %g/%g",st,simple( rv ),nW,(long)rn,obj,r.any( c )->getObjVal( ) ) );
		mc::traceValidated( ); mc::outcome( mc::fmt( "%d %ld %ld %ld %g",c,n,m,h,obj ) );
	}
	for( int k=0; k<3; ++k ) cApi.cleanup( k );
}
static void mainSetup( )
{
	for( int k=0; k<3; ++k ) { cApi.optInit( optMem[k],k ); cApi.setPrint( optMem[k],0 ); }
	mc::addSection( "constants",1,constants ); mc::addSection( "options",2*7*( nMem( )+1 )*2,options ); mc::addSection( "setup arguments",3*2*5*4*11,setupArgs );
	int dep = mc::thorough?5:4;
	for( int c=0; c<3; ++c )
	{
		// the first call is a set-up unless the history is about missing ones
		mc::u64 tot=1; for( int i=0; i<dep-1; ++i ) tot*=NOP;
		mc::addSection( mc::fmt( "class%d",c ),tot*4,[c,dep]( mc::u64 i ) { mc::Dec d( i ); std::vector<std::pair<int,int> > h; h.push_back( { c,d( 4 ) } ); for( int k=1; k<dep; ++k ) h.push_back( { c,d( NOP ) } ); hist( h ); } );
		mc::addSection( mc::fmt( "class%d without set-up",c ),NOP*NOP*NOP,[c]( mc::u64 i ) { mc::Dec d( i ); std::vector<std::pair<int,int> > h; for( int k=0; k<3; ++k ) h.push_back( { c,d( NOP ) } ); hist( h ); } );
	}
	// interleaving: all three objects set up, then every sequence over all classes
	int di = mc::thorough?4:3; mc::u64 tot=1; for( int i=0; i<di; ++i ) tot*=3*NOP;
	mc::addSection( "interleaved",tot,[di]( mc::u64 i ) { mc::Dec d( i ); std::vector<std::pair<int,int> > h; h.push_back( { 0,0 } ); h.push_back( { 1,1 } ); h.push_back( { 2,0 } ); for( int k=0; k<di; ++k ) { int c=d( 3 ); h.push_back( { c,d( NOP ) } ); } hist( h ); } );
}
int main( int argc, char** argv ) { return mc::main( argc,argv,"C25",RULE,mainSetup ); }
