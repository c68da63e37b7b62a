// C06: a solve interrupted at any point (iteration limit or CPU time limit) can be resumed and gives the same answer
#include <sys/time.h>
#include "drv.hpp"
static const char* RULE =
	"Crash-point style enumeration of interruptions: for every QP (or pair/triple of QPs) of a family and every option variant the uninterrupted run is executed first (N working set changes); "
	"then every cut point is taken: iteration limit k=0..N+1 for init and for hotstart, every constant limit repeated until solved, and every value of a CPU time limit under a virtual clock "
	"(gettimeofday replaced, one unit per query).  Each cut must end with the documented limit code, report no solution, never exceed the limit, and resuming (same or other data) must give a "
	"result that the exact model accepts.  States are distinct (cut, status, working set, point) observations, transitions are init/hotstart calls.";
static long long tick = 0; static bool fake = false;
extern "C" int gettimeofday( struct timeval* tv, void* ) { if ( fake ) ++tick; tv->tv_sec = 1000 + tick/4; tv->tv_usec = 250000*( tick%4 ); return 0; }

static std::vector<Fam> fams;
static void note( const Obs& o, const Fam& f, int tag ) { mc::state( mc::hashBytes( o.ws,sizeof(double)*(f.n+f.m),mc::hashBytes( o.x,sizeof(double)*f.n,(mc::u64)o.rv*4096+tag*16+o.st ) ) ); }
// an interrupted call: limit code, no solution claimed, limit respected
static bool interrupted( const Obs& o, const QP& q, int_t limit, const char* what )
{
	if ( o.solved || o.st==QPS_SOLVED ) { mc::fail( "limit-but-solved",std::string( what ) + o.str( q.n,q.m ) ); return false; }
	if ( o.inf || o.unb ) { mc::fail( "limit-but-flagged",std::string( what ) + o.str( q.n,q.m ) ); return false; }
	if ( o.nWSR > limit ) { mc::fail( "limit-exceeded",std::string( what ) + mc::fmt( " limit %d used %d",(int)limit,(int)o.nWSR ) ); return false; }
	return true;
}
static bool accept( const Obs& o, const QP& q, int var, bool hot, bool pd, const char* what )
{
	std::string w = judge( q,o,judgeIdx( var ),hot && !pd );
	if ( !w.empty( ) ) { mc::fail( "resumed-wrong",std::string( what ) + ": " + w + " for " + show( q ) ); return false; }
	return true;
}
template<class P> struct Mk { static P make( const Fam& f ); };
#define CALL( p,first,q,n,e ) ( (first) ? dInit( p,q,n,e ) : dHot( p,q,n,e ) )
// an interrupted homotopy sits at the solution of an intermediate QP (far bounds replacing absent limits of constraints are not part of it: not checked if they are tiny)
template<class P> static bool intermediate( P& p, int var, const char* what )
{
	real_t s=0,f=0,c=0; SolutionAnalysis sa; sa.getKktViolation( &p,&s,&f,&c ); mc::stat( "intermediate QPs checked" );
	if ( !( s<=1e-6 && ( f<=1e-6 || var==17 ) && c<=1e-6 ) ) { mc::fail( "intermediate",std::string( what ) + mc::fmt( " leaves a point that does not solve the intermediate QP: stationarity %g feasibility %g complementarity %g",s,f,c ) ); return false; }
	return true;
}
static bool isLimit( returnValue r ) { return r==RET_MAX_NWSR_REACHED; }

// mode 0: cut init(a) at every k, then resume with b (b==a: same data)
// mode 1: init(c), hotstart(a) cut at every k, resume with b
template<class P> static void cuts( const Fam& f, const int* s, int var, int mode, P* (*mk)( const Fam& ) )
{
	Options o = variant( var ); const QP &c = f.d[s[0]], &a = f.d[s[1]], &b = f.d[s[2]]; Extra e;
	int_t N; bool ok0;
	{
		P* p = mk( f ); p->setOptions( o ); int_t n = 200;
		if ( mode==1 ) { returnValue r = dInit( *p,c,n ); mc::transition( ); if ( r!=SUCCESSFUL_RETURN ) { delete p; return; } n = 200; }
		returnValue r = CALL( *p,mode==0,a,n,e ); mc::transition( ); ok0 = r==SUCCESSFUL_RETURN; N = n; delete p;
	}
	mc::stat( "uninterrupted runs" );
	for( int_t k=0; k<=N+1; ++k )
	{
		P* p = mk( f ); p->setOptions( o ); int_t n = 200;
		if ( mode==1 ) { dInit( *p,c,n ); mc::transition( ); }
		n = k; returnValue r = CALL( *p,mode==0,a,n,e ); mc::transition( );
		Obs ob = observe( *p,f.n,f.m,r,n ); note( ob,f,1+mode );
		bool cut = isLimit( r ), bad = false;
		if ( cut ) { mc::stat( "cuts taken" ); bad = !interrupted( ob,a,k,mode?"hotstart: ":"init: " ); if ( !bad && ok0 && k==N+1 ) { mc::fail( "limit-too-early",mc::fmt( "needs %d, limit %d reported reached",(int)N,(int)k ) ); bad = true; } if ( !bad ) bad = !intermediate( *p,var,mode?"hotstart cut":"init cut" ); }
		else if ( ok0 && r!=SUCCESSFUL_RETURN ) { mc::fail( "limit-code",mc::fmt( "limit %d: rv=%d instead of limit code (uninterrupted run solves it in %d)",(int)k,(int)r,(int)N ) ); bad = true; }
		else bad = !accept( ob,a,var,mode==1,f.pd,"limited call" );
		if ( !bad && cut )
		{
			// resume
			int_t n2 = 200; returnValue r2 = dHot( *p,b,n2 ); mc::transition( ); Obs o2 = observe( *p,f.n,f.m,r2,n2 ); note( o2,f,8+mode );
			accept( o2,b,var,true,f.pd,mc::fmt( "resumed after %s limit %d",mode?"hotstart":"init",(int)k ).c_str( ) );
			mc::traceValidated( );
			mc::sample( mc::fmt( "cut at %d of %d -> %s; resumed -> ",(int)k,(int)N,ob.str( f.n,f.m,false ).c_str( ) ) + o2.str( f.n,f.m ) + " for " + show( b ) );
		}
		delete p; if ( bad ) return;
	}
}
// constant small limit, repeated until solved
template<class P> static void drip( const Fam& f, const int* s, int var, int_t k, P* (*mk)( const Fam& ) )
{
	const QP &a = f.d[s[0]], &b = f.d[s[1]]; P* p = mk( f ); Extra e; p->setOptions( variant( var ) );
	bool first = true;
	for( int q=0; q<2; ++q )
	{
		const QP& d = q ? b : a; int calls = 0; Obs ob;
		for( ;; )
		{
			int_t n = k; returnValue r = CALL( *p,first,d,n,e ); first = false; mc::transition( ); ++calls; ob = observe( *p,f.n,f.m,r,n ); note( ob,f,3 );
			if ( !isLimit( r ) ) break;
			if ( !interrupted( ob,d,k,"drip: " ) || !intermediate( *p,var,"drip" ) ) { delete p; return; }
			if ( calls > 100 ) { if ( isFeasible( d ) && judgeIdx( var )<2 && f.pd ) mc::fail( "no-progress",mc::fmt( "not solved after 100 calls with limit %d: ",(int)k ) + show( d ) ); delete p; return; }
		}
		if ( !accept( ob,d,var,true,f.pd,"repeated limit" ) ) break;
		if ( ob.rv!=SUCCESSFUL_RETURN ) break;
		mc::traceValidated( );
	}
	delete p;
}
// CPU time limit under the virtual clock; time not accounted for: the readings before the first and after the last one
template<class P> static void timed( const Fam& f, const int* s, int var, int units, int guess, P* (*mk)( const Fam& ) )
{
	const QP &a = f.d[s[0]], &b = f.d[s[1]]; P* p = mk( f ); p->setOptions( variant( var ) ); fake = true; double slack = variant( var ).enableRegularisation==BT_TRUE && guess ? 0.75 : 0.5; if ( var==14 || var>=16 ) slack = 5.0;   // many inner solves, the reading between two of them is not accounted for
	for( int q=0; q<2; ++q )
	{
		const QP& d = q ? b : a; double cpu = 0.25*units; Extra e; e.cpu = &cpu; int_t n = 200; long long t0 = tick;
		Bounds gB( f.n ); Constraints gC( f.m ); // working set guess for the second call: all inactive or everything finite at its lower limit
		if ( guess && q )
		{
			for( int i=0; i<f.n; ++i ) gB.setupBound( i,guess==2 && d.lb[i]>-INF ? ST_LOWER : ST_INACTIVE );
			for( int i=0; i<f.m; ++i ) gC.setupConstraint( i,guess==2 && d.lbA[i]>-INF && i+f.n<f.m ? ST_LOWER : ST_INACTIVE );
			e.gB=&gB; if ( f.m && !IsSimple<P>::v ) e.gC=&gC;
		}
		returnValue r = CALL( *p,q==0,d,n,e ); mc::transition( ); double used = 0.25*( tick-t0 );
		Obs ob = observe( *p,f.n,f.m,r,n ); note( ob,f,4 );
		if ( r==SUCCESSFUL_RETURN && !( cpu >= used-slack && cpu <= used+0.25 ) ) { mc::fail( "cputime",mc::fmt( "reported %g s, clock advanced %g s, limit %g",cpu,used,0.25*units ) ); break; }
		if ( isLimit( r ) )
		{
			mc::stat( "time limit cuts" );
			if ( !interrupted( ob,d,200,"time limit: " ) || !intermediate( *p,var,"time limit" ) ) break;
			if ( !( cpu >= used-slack && cpu <= used+0.25 ) ) { mc::fail( "cputime",mc::fmt( "after limit: reported %g s, clock advanced %g s, limit %g",cpu,used,0.25*units ) ); break; }
			int_t n2 = 200; returnValue r2 = dHot( *p,d,n2 ); mc::transition( ); Obs o2 = observe( *p,f.n,f.m,r2,n2 ); note( o2,f,5 );
			if ( !accept( o2,d,var,true,f.pd,"resumed after time limit" ) ) break;
			if ( r2!=SUCCESSFUL_RETURN ) break;
		}
		else if ( guess && q && !f.pd && r!=SUCCESSFUL_RETURN ) break;   // a guess for a singular Hessian may be refused
		else if ( !accept( ob,d,var,q>0,f.pd,"time limited call" ) ) break;
		if ( isLimit( r )==false && r!=SUCCESSFUL_RETURN ) break;
		mc::traceValidated( );
	}
	fake = false; delete p;
}
static QProblemB* mkB( const Fam& f ) { return new QProblemB( f.n ); }
static QProblem* mkQ( const Fam& f ) { return new QProblem( f.n,f.m ); }
static SQProblem* mkS( const Fam& f ) { return new SQProblem( f.n,f.m ); }

static void add( Fam f, int nvar, int cls, size_t pairs )
{
	fams.push_back( f ); size_t fi = fams.size( )-1; mc::u64 nd = f.d.size( );
	auto reg = [&]( const char* sfx, mc::u64 cnt, std::function<void( const Fam&, mc::Dec&, int )> body )
	{
		std::string sec = f.name + sfx;
		mc::addSection( sec,cnt*nvar,[fi,nvar,body,sec]( mc::u64 i )
		{
			mc::Dec d( i ); int var = d( nvar ); std::string vn; variant( var,&vn );
			mc::key( vn + " " + sec + mc::fmt( " %llu",(unsigned long long)d.v ) ); mc::evaluation( );
			body( fams[fi],d,var );
		} );
	};
	#define DO( fn,... ) ( cls==0 ? fn<QProblemB>( __VA_ARGS__,mkB ) : cls==1 ? fn<QProblem>( __VA_ARGS__,mkQ ) : (void)fn<SQProblem>( __VA_ARGS__,(SQProblem*(*)( const Fam& ))mkS ) )
	reg( "_init",nd*nd,[cls]( const Fam& f, mc::Dec& d, int var ) { int s[3]; s[0]=0; s[1]=d( f.d.size( ) ); s[2]=d( f.d.size( ) ); DO( cuts,f,s,var,0 ); } );
	// pairs (c,a) exhaustively, resume with the same data and with one other vector
	reg( "_hot",nd*nd*2,[cls]( const Fam& f, mc::Dec& d, int var ) { int s[3]; s[0]=d( f.d.size( ) ); s[1]=d( f.d.size( ) ); s[2]=d( 2 ) ? s[1] : ( s[0]+3*s[1]+1 )%(int)f.d.size( ); DO( cuts,f,s,var,1 ); } );
	reg( "_drip",nd*nd*3,[cls]( const Fam& f, mc::Dec& d, int var ) { int s[2]; s[0]=d( f.d.size( ) ); s[1]=d( f.d.size( ) ); int_t k=1+d( 3 ); DO( drip,f,s,var,k ); } );
	reg( "_time",std::min<mc::u64>( nd,pairs )*std::min<mc::u64>( nd,pairs )*24,[cls,pairs]( const Fam& f, mc::Dec& d, int var ) { mc::u64 r=std::min<mc::u64>( f.d.size( ),pairs ); int s[2]; s[0]=d( r )*f.d.size( )/r; s[1]=d( r )*f.d.size( )/r; int u=1+d( 24 ); DO( timed,f,s,var,u,0 ); } );
	reg( "_timeguess",std::min<mc::u64>( nd,pairs )*std::min<mc::u64>( nd,pairs )*16,[cls,pairs]( const Fam& f, mc::Dec& d, int var ) { static const int U[]={1,2,4,6,9,12,16,24}; mc::u64 r=std::min<mc::u64>( f.d.size( ),pairs ); int s[2]; s[0]=d( r )*f.d.size( )/r; s[1]=d( r )*f.d.size( )/r; int u=U[d( 8 )], g=1+d( 2 ); if ( var==1 ) { var=2; mc::key( std::string( "MPC instead of " )+mc::S->w[mc::self].key ); } DO( timed,f,s,var,u,g ); } );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C06",RULE,[]
	{
		for( const char* s : {"uninterrupted runs","cuts taken","time limit cuts","intermediate QPs checked"} ) mc::registerStat( s );
		fams.clear( ); fams.reserve( 100 ); const bool T = mc::thorough;
		std::vector<double> H2a={2,-1,-1,2}, H2s={1,-1,-1,1}, H3={2,1,0,1,2,-1,0,-1,2}, H3s={1,-1,0,-1,1,0,0,0,0}, H1={2};
		VV g2={{-2,1},{1,1},{0,-2}}, g3={{-2,1,1},{1,-2,0},{3,3,-3}}, g1={{-2},{0},{1}};
		VV A21={{1,1}}, A22={{1,1},{1,-1}}, A32={{1,1,1},{1,-1,0}}, A33={{1,1,1},{1,-1,0},{0,1,2}};
		add( family( "B1",1,0,H1,VV(),g1,{0,1,2,3,4,5,6,8},{} ),NVAR,0,24 );
		add( thin( family( "B2",2,0,H2a,VV(),g2,{0,1,2,4,5,6},{} ),T?108:50 ),NVAR,0,T?40:16 );
		add( thin( family( "B3",3,0,H3,VV(),g3,{0,2,5,6},{} ),T?120:45 ),NVAR,0,T?40:16 );
		add( thin( family( "B3s",3,0,H3s,VV(),g3,{0,5,6},{} ),T?81:30 ),2,0,T?40:16 );
		add( thin( family( "Q21",2,1,H2a,A21,g2,{0,1,2,5},{0,8,5,2} ),T?96:40 ),NVAR,1,T?40:16 );
		add( thin( family( "Q22",2,2,H2a,A22,g2,{0,1,2,4},{0,4,5,3} ),T?120:45 ),NVAR,1,T?40:16 );
		add( thin( family( "Q22s",2,2,H2s,A22,g2,{0,5,6},{0,5,3} ),T?60:30 ),2,1,T?40:16 );
		add( thin( family( "Q32",3,2,H3,A32,g3,{0,1,2,5},{0,9,5,3} ),T?140:45 ),NVAR,1,T?40:16 );
		add( thin( family( "Q33",3,3,H3,A33,g3,{0,2,6},{0,4,5} ),T?140:45 ),6,1,T?40:16 );
		add( thin( family( "S32",3,2,H3,A32,g3,{0,2,5},{0,9,5} ),T?60:25 ),4,2,T?40:16 );
	} );
}
