// C14: the working set reported is consistent at every stop.   C30: equality-constrained QPs of the current working set.
#include "worlds.hpp"
#ifndef PROP
#define PROP 14
#endif
static const char* ID = PROP==14 ? "C14" : "C30";
static const char* RULE = PROP==14 ?
	"All call histories up to the depth (initialise, initialise with guess, without Hessian, hotstart, infeasible, interrupted after 0/1/2 changes, new matrices, reset); at every stop all working set queries must agree with each other, "
	"active gradients be linearly independent (exact integer rank), and after success activity, multiplier signs and limits fit." :
	"All call histories up to the depth x numbers of right hand sides x right hand side sets x left out limits: each returned solution must satisfy the optimality system of the equality-constrained QP of the working set, and the object "
	"must behave bit-identically afterwards as if it had not been asked.";
template<class P> struct Dim { static P* make( int n, int m ) { return new P( n,m ); } };
template<> struct Dim<QProblemB> { static QProblemB* make( int n, int ) { return new QProblemB( n ); } };
enum { INIT0, INIT1, INITG, INITID, INITZERO, HOT2, HOT3, HOTG, HOTINF, CUT0, CUT1, CUT2, RESET, MAT, MATCUT, NOPS };
static const char* ON[] = {"init0","init1","init0guess","initNoHessian(identity)","initNoHessian(zero)","hot2","hot3","hot2guess","hotInfeas","hot3cut0","hot3cut1","init1cut2","reset","mat1","mat0cut1"};
template<class P> returnValue matCall( P&, const QP&, int_t& n ) { n=0; return RET_NOT_YET_IMPLEMENTED; }
template<> returnValue matCall<SQProblem>( SQProblem& p, const QP& q, int_t& n ) { return dHotM( p,q,n ); }
static returnValue noH( QProblemB& p, const QP& q, int_t& n ) { return p.init( (double*)0,q.g,q.lb,q.ub,n ); }
static returnValue noH( QProblem& p, const QP& q, int_t& n ) { return p.init( (double*)0,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA,n ); }
struct Cur { QP q; int kind; bool tainted; Cur( ) { kind=0; tainted=false; } };        // data the object refers to; kind 0 none; tainted: an unbounded QP was seen since the last initialisation (see C04)
template<class P> Obs step( P& p, const World& w, int op, Cur& c )
{
	int_t n=100; returnValue rv=SUCCESSFUL_RETURN; Extra e; QP d=w.d[0]; bool mats=false, cont=true;
	Bounds gb( w.n ); Constraints gc( w.m );
	if ( op==INITG || op==HOTG )
	{
		const QP& q=w.d[op==INITG?0:2];
		for( int i=0; i<w.n; ++i ) gb.setupBound( i,op==INITG ? ( q.lb[i]>-INF?ST_LOWER:ST_INACTIVE ) : ( q.ub[i]<INF && i%2==0?ST_UPPER:ST_INACTIVE ) );
		for( int i=0; i<w.m; ++i ) gc.setupConstraint( i,op==HOTG && i==0 && q.ubA[i]<INF && w.n>1 ? ST_UPPER : ST_INACTIVE );
		e.gB=&gb; e.gC=&gc;
	}
	switch( op )
	{
		case INIT0: d=w.d[0]; mats=true; rv=dInit( p,w.d[0],n ); break;
		case INIT1: d=w.d[1]; mats=true; rv=dInit( p,w.d[1],n ); break;
		case INITG: d=w.d[0]; mats=true; rv=dInit( p,w.d[0],n,e ); break;
		case INITID: case INITZERO: d=w.d[op==INITID?0:2]; mats=true; for( int i=0; i<w.n; ++i ) for( int j=0; j<w.n; ++j ) d.H[i*w.n+j] = op==INITID && i==j; p.reset( ); p.setHessianType( op==INITID?HST_IDENTITY:HST_ZERO ); rv=noH( p,w.d[op==INITID?0:2],n ); break;
		case HOT2: d=w.d[2]; rv=dHot( p,d,n ); break;
		case HOT3: d=w.d[3]; rv=dHot( p,d,n ); break;
		case HOTG: d=w.d[2]; rv=dHot( p,d,n,e ); break;
		case HOTINF: d=w.d[4]; rv=dHot( p,d,n ); break;
		case CUT0: case CUT1: n=op-CUT0; d=w.d[3]; rv=dHot( p,d,n ); break;
		case CUT2: n=2; d=w.d[1]; mats=true; rv=dInit( p,w.d[1],n ); break;
		case MAT: d=w.d[1]; mats=true; rv=matCall( p,w.d[1],n ); break;
		case MATCUT: n=1; d=w.d[0]; mats=true; rv=matCall( p,w.d[0],n ); break;
		case RESET: rv=p.reset( ); c.kind=0; cont=false; break;
	}
	if ( cont && p.getStatus( )!=QPS_NOTINITIALISED && rv!=RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED && rv!=RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED && rv!=RET_NOT_YET_IMPLEMENTED ) { if ( mats ) { c.q=d; c.kind=1; } else { QP k=c.q; c.q=d; memcpy( c.q.H,k.H,sizeof(k.H) ); memcpy( c.q.A,k.A,sizeof(k.A) ); } bool u = isPSD( c.q.H,w.n ) ? isFeasible( c.q ) && isUnboundedConvex( c.q ) : false; c.tainted = op==MAT || op==MATCUT || !mats ? c.tainted || u : u; }
	return observe( p,w.n,w.m,rv,n );
}
// rank of an integer matrix, exact
static int rankOf( std::vector<std::vector<double> > a )
{
	int r=0; if ( a.empty( ) ) return 0; int n=(int)a[0].size( );
	for( int c=0; c<n && r<(int)a.size( ); ++c )
	{
		int p=-1; for( int i=r; i<(int)a.size( ); ++i ) if ( a[i][c]!=0 ) { p=i; break; }
		if ( p<0 ) continue;
		std::swap( a[r],a[p] );
		for( int i=r+1; i<(int)a.size( ); ++i ) { double f=a[i][c]; for( int j=0; j<n; ++j ) a[i][j]=a[i][j]*a[r][c]-f*a[r][j]; }
		++r;
	}
	return r;
}
static bool getC( QProblemB&, Constraints& ) { return false; }
static bool getC( QProblem& p, Constraints& c ) { p.getConstraints( c ); return true; }
static int nEC( QProblemB& ) { return 0; }
static int nEC( QProblem& p ) { return (int)p.getNEC( ); }
template<class P> std::string consistent( P& p, const World& w, const Cur& c, const Obs& o )
{
	int n=w.n,m=w.m; double ws[NMAX+MMAX],wb[NMAX],wc[MMAX]; for( int i=0; i<NMAX+MMAX; ++i ) ws[i]=9;
	if ( p.getWorkingSet( ws )!=SUCCESSFUL_RETURN || p.getWorkingSetBounds( wb )!=SUCCESSFUL_RETURN || ( m && p.getWorkingSetConstraints( wc )!=SUCCESSFUL_RETURN ) ) return "a working set query failed";
	int nFX=0,nAC=0; std::vector<int> fr;
	for( int i=0; i<n; ++i ) { if ( ws[i]!=wb[i] || ( ws[i]!=0 && ws[i]!=1 && ws[i]!=-1 ) ) return "bounds part of the working set"; if ( ws[i]!=0 ) ++nFX; else fr.push_back( i ); }
	for( int i=0; i<m; ++i ) { if ( ws[n+i]!=wc[i] || ( ws[n+i]!=0 && ws[n+i]!=1 && ws[n+i]!=-1 ) ) return "constraints part of the working set"; if ( ws[n+i]!=0 ) ++nAC; }
	if ( !c.kind ) return ( nFX || nAC ) ? "something is active before the initialisation" : "";
	if ( p.getNV( )!=n || o.nFX!=nFX || o.nFR!=n-nFX || o.nAC!=nAC || o.nIAC!=m-nAC || p.getNZ( )!=n-nFX-nAC ) return mc::fmt( "counts: nFX=%d nFR=%d nAC=%d nIAC=%d nZ=%d for working set ",o.nFX,o.nFR,o.nAC,o.nIAC,(int)p.getNZ( ) )+vec( ws,n+m );
	Bounds b; p.getBounds( b ); int eq=0; int_t* idx;
	for( int i=0; i<n; ++i )
	{
		SubjectToStatus s=b.getStatus( i ); if ( ( s==ST_LOWER?-1:s==ST_UPPER?1:0 )!=ws[i] ) return "status of a bound differs from the working set";
		if ( ( b.getFree( )->isMember( i )==BT_TRUE )!=( ws[i]==0 ) || ( b.getFixed( )->isMember( i )==BT_TRUE )!=( ws[i]!=0 ) ) return "index sets of bounds differ from the working set";
		if ( b.getType( i )==ST_EQUALITY ) ++eq;
	}
	if ( b.getNFR( )!=o.nFR || b.getNFX( )!=o.nFX || b.getNV( )!=n || eq!=(int)p.getNFV( ) || b.getFree( )->getLength( )!=o.nFR || b.getFixed( )->getLength( )!=o.nFX ) return "counts of bounds";
	Constraints k( m );
	if ( getC( p,k ) )
	{
		int ec=0;
		for( int i=0; i<m; ++i )
		{
			SubjectToStatus s=k.getStatus( i ); if ( ( s==ST_LOWER?-1:s==ST_UPPER?1:0 )!=ws[n+i] ) return "status of a constraint differs from the working set";
			if ( ( k.getInactive( )->isMember( i )==BT_TRUE )!=( ws[n+i]==0 ) || ( k.getActive( )->isMember( i )==BT_TRUE )!=( ws[n+i]!=0 ) ) return "index sets of constraints differ from the working set";
			if ( k.getType( i )==ST_EQUALITY ) ++ec;
		}
		if ( k.getNC( )!=m || k.getNAC( )!=o.nAC || k.getNIAC( )!=o.nIAC || ec!=nEC( p ) ) return "counts of constraints";
	}
	std::vector<std::vector<double> > act; for( int i=0; i<m; ++i ) if ( ws[n+i]!=0 ) { std::vector<double> r; for( int j : fr ) r.push_back( c.q.A[i*n+j] ); act.push_back( r ); }
	if ( nAC>n-nFX || rankOf( act )<nAC ) return "active constraints are linearly dependent: "+vec( ws,n+m );
	if ( o.rv==SUCCESSFUL_RETURN && o.solved && !c.tainted )
	{
		double x[NMAX],y[NMAX+MMAX]; p.getPrimalSolution( x ); p.getDualSolution( y ); double sx=1,sy=1; for( int i=0; i<n; ++i ) sx=std::max( sx,fabs( x[i] ) ); for( int i=0; i<n+m; ++i ) sy=std::max( sy,fabs( y[i] ) );
		for( int i=0; i<n+m; ++i )
		{
			double l=i<n?c.q.lb[i]:c.q.lbA[i-n],u=i<n?c.q.ub[i]:c.q.ubA[i-n],v=0; if ( i<n ) v=x[i]; else for( int j=0; j<n; ++j ) v+=c.q.A[( i-n )*n+j]*x[j];
			if ( ws[i]==0 ) { if ( y[i]!=0 ) return mc::fmt( "inactive item %d has multiplier %g",i,y[i] ); if ( v<l-1e-5*sx || v>u+1e-5*sx ) return mc::fmt( "inactive item %d violates its limits",i ); continue; }
			double b=ws[i]<0?l:u; if ( fabs( b )>=INF ) return mc::fmt( "item %d is active at an infinite limit",i );
			if ( fabs( v-b )>1e-5*sx ) return mc::fmt( "item %d is active at %s limit %g but its value is %.9g",i,ws[i]<0?"lower":"upper",b,v );
			if ( l<u-1e-6 && ws[i]*y[i]>1e-5*sy ) return mc::fmt( "item %d is active at its %s limit with multiplier %g",i,ws[i]<0?"lower":"upper",y[i] );
		}
	}
	return "";
}
static const double RHS[3][8] = {{1,-2,3,0.5,-1,2,0.25,4},{0,0,0,0,0,0,0,0},{-7,5,1,2,8,-3,6,-0.5}};
template<class P> struct Eqp { static std::string go( P&, const World&, const Cur&, const Obs&, int, int, int, int ) { return ""; } };
template<> struct Eqp<QProblem> { static std::string go( QProblem& p, const World& w, const Cur& c, const Obs& o, int var, int nr, int rot, int mask )
{
	int n=w.n,m=w.m; std::vector<double> g,lb,ub,la,ua,x( nr*n+1,-55 ),y( nr*( n+m )+1,-66 );
	for( int k=0; k<nr; ++k ) { const double* R=RHS[( k+rot )%3]; const double* Q=RHS[( k+rot+1 )%3]; for( int i=0; i<n; ++i ) { g.push_back( R[i] ); lb.push_back( Q[i] ); ub.push_back( Q[i+3]+10 ); } for( int i=0; i<m; ++i ) { la.push_back( R[i+4] ); ua.push_back( Q[i+2]-5 ); } }
	double dummy=0; auto P0=[&]( std::vector<double>& v, int bit ) -> double* { return ( mask&bit ) ? (double*)0 : v.empty( ) ? &dummy : v.data( ); };
	std::vector<double> g0=g,l0=lb,u0=ub,la0=la,ua0=ua;
	double ws[NMAX+MMAX]; p.getWorkingSet( ws ); returnValue rv=p.solveCurrentEQP( nr,mask&16?(double*)0:g.empty( )?&dummy:g.data( ),P0( lb,1 ),P0( ub,2 ),P0( la,4 ),P0( ua,8 ),mask&32?(double*)0:x.data( ),mask&64?(double*)0:y.data( ) );
	if ( g!=g0 || lb!=l0 || ub!=u0 || la!=la0 || ua!=ua0 ) return "an input was modified";
	if ( x[nr*n]!=-55 || y[nr*( n+m )]!=-66 ) return "wrote behind an output";
	bool missing=( mask&( 16+32+64 ) )!=0; for( int i=0; i<n+m; ++i ) if ( ws[i]!=0 && ( mask & ( i<n ? ( ws[i]<0?1:2 ) : ( ws[i]<0?4:8 ) ) ) ) missing=true;
	if ( missing || !c.kind || o.st==QPS_NOTINITIALISED ) return rv==SUCCESSFUL_RETURN ? "accepted although data are missing or nothing is initialised" : "";
	if ( rv!=SUCCESSFUL_RETURN )
	{
		if ( o.st==QPS_PREPARINGAUXILIARYQP || !isPSD( c.q.H,n ) || ( !isPD( c.q.H,n ) && p.getOptions( ).enableRegularisation==BT_FALSE ) ) return "";
		return mc::fmt( "returned %d",(int)rv );
	}
	const bool pd=isPD( c.q.H,n );
	for( int k=0; k<nr; ++k )
	{
		double *X=&x[k*n],*Y=&y[k*( n+m )];
		if ( isPSD( c.q.H,n ) ) for( int i=0; i<n; ++i )
		{
			double r=g[k*n+i]-Y[i],s=fabs( g[k*n+i] )+fabs( Y[i] ); for( int j=0; j<n; ++j ) { r+=c.q.H[i*n+j]*X[j]; s+=fabs( c.q.H[i*n+j]*X[j] )+1e-3*fabs( X[j] )*( fabs( X[j] )>1e6 ); } for( int a=0; a<m; ++a ) { r-=c.q.A[a*n+i]*Y[n+a]; s+=fabs( c.q.A[a*n+i]*Y[n+a] ); }
			double mx=0; for( int j=0; j<n; ++j ) mx=std::max( mx,fabs( X[j] ) );
			if ( !( fabs( r )<=1e-8*( 1+s )+( pd?1e-13:1e-9 )*mx ) ) return mc::fmt( "right hand side %d: stationarity violated by %g",k,r );
		}
		double mx=1; for( int j=0; j<n; ++j ) mx=std::max( mx,fabs( X[j] ) );
		for( int i=0; i<n+m; ++i )
		{
			if ( ws[i]==0 ) { if ( Y[i]!=0 ) return mc::fmt( "right hand side %d: inactive item %d has multiplier %g",k,i,Y[i] ); continue; }
			double v=0,b = i<n ? ( ws[i]<0?lb:ub )[k*n+i] : ( ws[i]<0?la:ua )[k*m+i-n]; if ( i<n ) v=X[i]; else for( int j=0; j<n; ++j ) v+=c.q.A[( i-n )*n+j]*X[j];
			if ( !( fabs( v-b )<=1e-8*mx ) ) return mc::fmt( "right hand side %d: active item %d has value %.12g instead of %.12g",k,i,v,b );
		}
	}
	mc::stat( "equality-constrained QPs verified",nr ); if ( nr ) mc::outcome( vec( x.data( ),nr*n )+vec( y.data( ),nr*( n+m ) ) );
	return "";
} };
template<> struct Eqp<SQProblem> { static std::string go( SQProblem& p, const World& w, const Cur& c, const Obs& o, int var, int nr, int rot, int mask ) { return Eqp<QProblem>::go( p,w,c,o,var,nr,rot,mask ); } };
template<class P> void run14( const World& w, int var, const std::vector<int>& h )
{
	P* p=Dim<P>::make( w.n,w.m ); Options op=variant( var ); op.printLevel=PL_NONE; p->setOptions( op ); Cur c; c.q=w.d[0]; c.kind=0; std::string bad;
	for( size_t i=0; i<h.size( ); ++i )
	{
		Obs o=step( *p,w,h[i],c ); mc::transition( );
		bool last=true; for( size_t k=i+1; k<h.size( ); ++k ) if ( h[k]!=0 ) last=false;
		if ( last ) { bad=consistent( *p,w,c,o ); mc::state( mc::hashStr( o.str( w.n,w.m )+vec( o.ws,w.n+w.m )+mc::fmt( "%d",(int)c.kind ) ) ); if ( !bad.empty( ) ) { bad=mc::fmt( "after call %d (returned %d): ",(int)i+1,(int)o.rv )+bad; break; } mc::traceValidated( ); mc::outcome( vec( o.ws,w.n+w.m )+mc::fmt( "%d %d",(int)o.rv,o.st ) ); }
	}
	delete p; if ( !bad.empty( ) ) mc::fail( "working set",bad );
}
template<class P> void run30( const World& w, int var, const std::vector<int>& h, int nr, int rot, int mask )
{
	P* p=Dim<P>::make( w.n,w.m ); P* t=Dim<P>::make( w.n,w.m ); Options op=variant( var ); op.printLevel=PL_NONE; p->setOptions( op ); t->setOptions( op ); Cur c,d; c.q=d.q=w.d[0]; c.kind=d.kind=0; std::string bad,why; Obs o;
	for( int x : h ) { o=step( *p,w,x,c ); step( *t,w,x,d ); mc::transition( ); }
	if ( h.empty( ) ) o=observe( *p,w.n,w.m,SUCCESSFUL_RETURN,0 );
	bad=Eqp<P>::go( *p,w,c,o,var,nr,rot,mask );
	if ( bad.empty( ) ) for( int x : {(int)HOT2,(int)INIT1} ) { Obs a=step( *p,w,x,c ), b=step( *t,w,x,d ); if ( !sameBits( a,b,w.n,w.m,&why ) ) { bad="the object was changed: "+why; break; } }
	mc::traceValidated( ); delete p; delete t; if ( !bad.empty( ) ) mc::fail( "EQP",bad );
}
static std::vector<World> W;
int main( int argc, char** argv )
{
	return mc::main( argc,argv,ID,RULE,[]
	{
		W=worlds( ); const bool T=mc::thorough; mc::registerStat( "equality-constrained QPs verified" );
		static const int VARS[] = {0,2,14,1,8,7,4,11,5,3,6,9,10,12,13,15,16,17};
		for( size_t wi=0; wi<W.size( ); ++wi ) for( int c=0; c<3; ++c )
		{
			if ( ( c==0 ) != ( W[wi].m==0 ) && !( c!=0 && wi==1 ) ) continue;
			if ( PROP==30 && c==0 ) continue;
			std::vector<int> al; for( int o=0; o<NOPS; ++o ) if ( c==2 || o<MAT ) al.push_back( o );
			std::string nm=W[wi].name+( c==0?"_QProblemB":c==1?"_QProblem":"_SQProblem" );
			if ( PROP==14 )
			{
				int len=T?4:3,nv=T?NVAR:8;
				mc::addSection( nm,ipow( al.size( ),len )*nv,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( nv )]; std::vector<int> h; for( int k=0; k<len; ++k ) h.push_back( al[d( al.size( ) )] ); std::string vn; variant( var,&vn ); std::string s; for( int o : h ) s+=std::string( " " )+ON[o];
					mc::key( nm+" "+vn+":"+s ); mc::evaluation( );
					if ( c==0 ) run14<QProblemB>( W[wi],var,h ); else if ( c==1 ) run14<QProblem>( W[wi],var,h ); else run14<SQProblem>( W[wi],var,h );
				} );
			}
			else
			{
				int len=T?3:2,nv=T?NVAR:4,nm2=T?11:3; static const int MASK[] = {0,5,10,1,2,4,8,15,16,32,64}; std::vector<int> al1=al; al1.push_back( -1 );
				mc::addSection( nm,ipow( al1.size( ),len )*nv*4*2*nm2,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int mask=MASK[d( nm2 )],nr=d( 4 ),rot=d( 2 ),var=VARS[d( nv )]; std::vector<int> h; for( int k=0; k<len; ++k ) { int o=al1[d( al1.size( ) )]; if ( o>=0 ) h.push_back( o ); } std::string vn; variant( var,&vn ); std::string s; for( int o : h ) s+=std::string( " " )+ON[o];
					mc::key( nm+" "+vn+":"+s+mc::fmt( " then %d right hand sides (set %d) mask %d",nr,rot,mask ) ); mc::evaluation( );
					if ( c==1 ) run30<QProblem>( W[wi],var,h,nr,rot,mask ); else run30<SQProblem>( W[wi],var,h,nr,rot,mask );
				} );
			}
		}
	} );
}
