// C15 / C16 / C17: what a call does to its inputs, what a rejected call does to the object, memory safety of every call sequence.
// Every vector passed to a call lives in its own exact-size heap block (ASan red zones), is compared with a copy after the call, then
// poisoned and freed; matrices live as long as the object and are compared after every call.
#include "drv.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes( );
#ifndef PROP
#define PROP 17
#endif
#if PROP==15
static const char* RULE = "All call sequences up to the depth over an alphabet covering every data-taking call (init from arrays / sparse objects, with primal, dual, working set and Cholesky guesses; hotstarts with vectors, absent limits, guessed working sets, new matrices; copies; equality-constrained solves; sensitivity). "
	"After every call all inputs (vectors, matrices incl. padding, guessed working sets, options) are compared bit by bit with copies; then all vectors are overwritten with NaN and freed.  All observations must be bit-identical to the execution in which inputs are retained.  transitions = calls, states = distinct observations.";
#elif PROP==16
static const char* RULE = "Every history up to the depth, then every invalid call (missing gradient, matrices or output, inconsistent guesses, too small guess objects, unreadable files, calls on empty objects), then every continuation: the call must return an error and the object must behave bit-identically to one that never saw the call "
	"(for init, which discards the previous problem: to one that was reset).";
#else
static const char* RULE = "All call sequences up to the depth over the complete alphabet of public solver calls, including calls before initialisation, run on the AddressSanitizer/UBSan build with every input and output in an exact-size heap block freed directly after the call; any out-of-bounds access, use of freed memory, undefined arithmetic or crash is a violation, as are returned non-finite numbers and memory not released.  The same for every call reading its data from files, with each file intact or damaged in six ways, and for every rejected call, between histories and continuations.";
#endif
struct World { std::string name; int n,m; std::vector<QP> d; };
static std::vector<World> W;

struct Blob { double* p; size_t n; std::vector<double> c; };
struct Arena            // exact-size heap copies of the inputs of one call
{
	std::vector<Blob> b;
	const double* in( const double* src, size_t n ) { if ( !src ) return 0; Blob x; x.p=(double*)malloc( n?n*8:1 ); x.n=n; if ( n ) memcpy( x.p,src,n*8 ); x.c.assign( src,src+n ); b.push_back( x ); return x.p; }
	int changed( ) const { for( size_t i=0; i<b.size( ); ++i ) if ( b[i].n && memcmp( b[i].p,b[i].c.data( ),b[i].n*8 ) ) return (int)i; return -1; }
	void release( ) { for( auto& x : b ) { for( size_t i=0; i<x.n; ++i ) x.p[i]=NAN; free( x.p ); } b.clear( ); }
	~Arena( ) { for( auto& x : b ) free( x.p ); }
};
struct SpMats { sparse_int_t *ir,*jc; double* v; std::vector<sparse_int_t> cir,cjc; std::vector<double> cv; };
struct Mats             // matrices referenced by the solver objects
{
	Arena a; std::vector<SpMats> s; std::vector<Matrix*> objs;
	const double* dense( const double* p, size_t n ) { return a.in( p,n ); }
	SpMats& csc( const double* M, int r, int c, bool sym )
	{
		SpMats t; for( int j=0; j<c; ++j ) { t.cjc.push_back( t.cv.size( ) ); for( int i=0; i<r; ++i ) if ( M[i*c+j]!=0 || ( sym && i==j ) ) { t.cir.push_back( i ); t.cv.push_back( M[i*c+j] ); } } t.cjc.push_back( t.cv.size( ) );
		size_t k=t.cv.size( ); t.ir=(sparse_int_t*)malloc( k*sizeof(sparse_int_t)+!k ); t.jc=(sparse_int_t*)malloc( t.cjc.size( )*sizeof(sparse_int_t) ); t.v=(double*)malloc( k*8+!k );
		if ( k ) { memcpy( t.ir,t.cir.data( ),k*sizeof(sparse_int_t) ); memcpy( t.v,t.cv.data( ),k*8 ); } memcpy( t.jc,t.cjc.data( ),t.cjc.size( )*sizeof(sparse_int_t) );
		s.push_back( t ); return s.back( );
	}
	SymmetricMatrix* symSparse( const double* M, int n ) { SpMats t=csc( M,n,n,true ); SymSparseMat* r = new SymSparseMat( n,n,t.ir,t.jc,t.v ); r->createDiagInfo( ); objs.push_back( r ); return r; }
	Matrix* sparse( const double* M, int m, int n ) { SpMats t=csc( M,m,n,false ); Matrix* r = new SparseMatrix( m,n,t.ir,t.jc,t.v ); objs.push_back( r ); return r; }
	// dense object with padded rows; the padding is part of what must not change
	SymmetricMatrix* symPad( const double* M, int n ) { std::vector<double> q( n*(n+1),-77 ); for( int i=0; i<n; ++i ) for( int j=0; j<n; ++j ) q[i*(n+1)+j]=M[i*n+j]; SymDenseMat* r = new SymDenseMat( n,n,n+1,(double*)a.in( q.data( ),q.size( ) ) ); objs.push_back( r ); return r; }
	Matrix* pad( const double* M, int m, int n ) { std::vector<double> q( m*(n+1)+1,-77 ); for( int i=0; i<m; ++i ) for( int j=0; j<n; ++j ) q[i*(n+1)+j]=M[i*n+j]; Matrix* r = new DenseMatrix( m,n,n+1,(double*)a.in( q.data( ),q.size( ) ) ); objs.push_back( r ); return r; }
	std::string changed( ) const
	{
		int k=a.changed( ); if ( k>=0 ) return mc::fmt( "dense matrix data %d",k );
		for( auto& t : s ) { size_t k=t.cv.size( ); if ( k && ( memcmp( t.v,t.cv.data( ),k*8 ) || memcmp( t.ir,t.cir.data( ),k*sizeof(sparse_int_t) ) ) ) return "sparse matrix data"; if ( memcmp( t.jc,t.cjc.data( ),t.cjc.size( )*sizeof(sparse_int_t) ) ) return "sparse column pointers"; }
		return "";
	}
	~Mats( ) { for( auto* o : objs ) delete o; for( auto& t : s ) { free( t.ir ); free( t.jc ); free( t.v ); } }
};
enum { INIT0, INIT1, INITS, INITX, INITXY, INITY, INITG, INITXYG, INITR, HOT2, HOT3, HOT4, CUT, HOTZERO, HOTG, HOTN, MAT1, MATS, RESET, OPT, COPY, ASSIGN, EQP, ANA, GETS, NOPS };
static const char* ON[] = {"init0","init1null","initSparse","initX","initXY","initY","initWS","initXY+WS","initR","hot2","hot3","hotInfeas","hotCut","hotZero","hotWS","hotNull+time","mat1","matSparse","reset","opt","copy","assign","eqp","sensitivity","getters"};
static bool isQ( QProblemB& ) { return false; } static bool isQ( QProblem& ) { return true; }
template<class P> struct Dim { static P* make( int n, int m ) { return new P( n,m ); } };
template<> struct Dim<QProblemB> { static QProblemB* make( int n, int ) { return new QProblemB( n ); } };

template<class P> struct Ctx
{
	const World& w; P* p; Mats mats; bool retain; std::string bad; std::vector<Arena*> kept; std::vector<double> extra;
	Ctx( const World& _w, int var, bool _retain ) : w( _w ), p( Dim<P>::make( _w.n,_w.m ) ), retain( _retain ) { Options o = variant( var ); o.printLevel = PL_NONE; p->setOptions( o ); }
	~Ctx( ) { delete p; chk( "destruction" ); for( auto* a : kept ) delete a; }
	void chk( const char* op ) { std::string s = mats.changed( ); if ( !s.empty( ) && bad.empty( ) ) bad = s + " changed by " + op; }
};
struct In { const double *H,*A,*g,*lb,*ub,*lbA,*ubA,*x,*y,*R; SymmetricMatrix* Ho; Matrix* Ao; const Bounds* gB; const Constraints* gC; double* cpu; In( ) { memset( this,0,sizeof(*this) ); } };
static returnValue cInit( QProblemB& p, const In& i, int_t& n ) { return i.Ho ? p.init( i.Ho,i.g,i.lb,i.ub,n,i.cpu,i.x,i.y,i.gB,i.R ) : p.init( i.H,i.g,i.lb,i.ub,n,i.cpu,i.x,i.y,i.gB,i.R ); }
static returnValue cInit( QProblem& p, const In& i, int_t& n ) { return i.Ho ? p.init( i.Ho,i.g,i.Ao,i.lb,i.ub,i.lbA,i.ubA,n,i.cpu,i.x,i.y,i.gB,i.gC,i.R ) : p.init( i.H,i.g,i.A,i.lb,i.ub,i.lbA,i.ubA,n,i.cpu,i.x,i.y,i.gB,i.gC,i.R ); }
static returnValue cHot( QProblemB& p, const In& i, int_t& n ) { return p.hotstart( i.g,i.lb,i.ub,n,i.cpu,i.gB ); }
static returnValue cHot( QProblem& p, const In& i, int_t& n ) { return p.hotstart( i.g,i.lb,i.ub,i.lbA,i.ubA,n,i.cpu,i.gB,i.gC ); }
static returnValue cHotM( QProblemB& p, const In& i, int_t& n ) { return cHot( p,i,n ); }
static returnValue cHotM( QProblem& p, const In& i, int_t& n ) { return cHot( p,i,n ); }
static returnValue cHotM( SQProblem& p, const In& i, int_t& n ) { return i.Ho ? p.hotstart( i.Ho,i.g,i.Ao,i.lb,i.ub,i.lbA,i.ubA,n,i.cpu,i.gB,i.gC ) : p.hotstart( i.H,i.g,i.A,i.lb,i.ub,i.lbA,i.ubA,n,i.cpu,i.gB,i.gC ); }
static returnValue eqpNull( QProblemB&, const In& ) { return RET_INVALID_ARGUMENTS; }
static returnValue eqpNull( QProblem& p, const In& i ) { double t[16]; returnValue a=p.solveCurrentEQP( 1,i.g,i.lb,i.ub,i.lbA,i.ubA,0,t ), b=p.solveCurrentEQP( 1,i.g,i.lb,i.ub,i.lbA,i.ubA,t,0 ); return a==SUCCESSFUL_RETURN ? a : b; }
static returnValue hotObj( QProblemB& p, const In&, int_t& ) { return RET_INVALID_ARGUMENTS; }
static returnValue hotObj( SQProblem& p, const In& i, int_t& n ) { return p.hotstart( (SymmetricMatrix*)0,i.g,i.Ao,i.lb,i.ub,i.lbA,i.ubA,n ); }
static returnValue sens( SolutionAnalysis& s, QProblemB& p, double* a, double* b ) { return s.getVarianceCovariance( &p,a,b ); }
static returnValue sens( SolutionAnalysis& s, QProblem& p, double* a, double* b ) { return s.getVarianceCovariance( &p,a,b ); }
static returnValue sens( SolutionAnalysis& s, SQProblem& p, double* a, double* b ) { return s.getVarianceCovariance( (QProblem*)&p,a,b ); }
static double kktv( SolutionAnalysis& s, QProblemB& p ) { return s.getKktViolation( &p ); }
static double kktv( SolutionAnalysis& s, QProblem& p ) { return s.getKktViolation( &p ); }
static double kktv( SolutionAnalysis& s, SQProblem& p ) { return s.getKktViolation( &p ); }
static returnValue cEqp( QProblemB& p, const In&, double*, double* ) { return SUCCESSFUL_RETURN; }
static returnValue cEqp( QProblem& p, const In& i, double* x, double* y ) { return p.solveCurrentEQP( 1,i.g,i.lb,i.ub,i.lbA,i.ubA,x,y ); }
static void cWsC( QProblemB&, double* ) { } static void cWsC( QProblem& p, double* o ) { p.getWorkingSetConstraints( o ); Constraints c; p.getConstraints( c ); p.getNEC( ); p.getNAC( ); p.getNIAC( ); }
static std::string dumpB( const SubjectTo& s, int n ) { std::string r; for( int i=0; i<n; ++i ) r += mc::fmt( "%d/%d ",(int)s.getStatus( i ),(int)s.getType( i ) ); return r; }
static std::string dumpB( Bounds& b, int n ) { std::string r = dumpB( (const SubjectTo&)b,n ) + mc::fmt( "%d %d:",(int)b.getNFR( ),(int)b.getNFX( ) ); int_t *q; b.getFree( )->getNumberArray( &q ); for( int i=0; i<b.getNFR( ); ++i ) r += mc::fmt( " %d",(int)q[i] ); return r; }
static std::string dumpC( Constraints& b, int n ) { std::string r = dumpB( (const SubjectTo&)b,n ) + mc::fmt( "%d %d:",(int)b.getNAC( ),(int)b.getNIAC( ) ); int_t *q; b.getActive( )->getNumberArray( &q ); for( int i=0; i<b.getNAC( ); ++i ) r += mc::fmt( " %d",(int)q[i] ); return r; }
// upper triangular Cholesky factor (row major), false if not positive definite
static bool chol( const double* H, int n, std::vector<double>& R )
{
	R.assign( n*n,0.0 );
	for( int j=0; j<n; ++j ) for( int i=0; i<=j; ++i ) { double s=H[i*n+j]; for( int k=0; k<i; ++k ) s-=R[k*n+i]*R[k*n+j]; if ( i==j ) { if ( s<=1e-9 ) return false; R[i*n+i]=sqrt( s ); } else R[i*n+j]=s/R[i*n+i]; }
	return true;
}
// performs one operation; extra outputs (getters) are appended to c.extra
template<class P> static Obs doOp( Ctx<P>& c, int op )
{
	const World& w = c.w; const int n=w.n,m=w.m; P& p = *c.p; int_t nw = 100; returnValue rv = SUCCESSFUL_RETURN; c.extra.clear( );
	Arena* a = new Arena; In i; Bounds gb; Constraints gc; std::string sB,sC; double cpu = 1000.0;
	const QP& q = w.d[ op==INIT1||op==MAT1||op==MATS ? 1 : op==HOT2||op==CUT||op==HOTG ? 2 : op==HOT3||op==HOTN||op==HOTZERO||op==EQP ? 3 : op==HOT4 ? 4 : 0 ];
	i.g=a->in( q.g,n ); i.lb=a->in( q.lb,n ); i.ub=a->in( q.ub,n ); if ( m ) { i.lbA=a->in( q.lbA,m ); i.ubA=a->in( q.ubA,m ); }
	const bool isInit = op<=INITR, isMat = op==MAT1 || op==MATS;
	if ( isInit || isMat )
	{
		if ( op==INITS || op==MATS ) { i.Ho=c.mats.symSparse( q.H,n ); i.Ao = m ? c.mats.sparse( q.A,m,n ) : 0; }
		else if ( op==INITX || op==INITG ) { i.Ho=c.mats.symPad( q.H,n ); i.Ao = m ? c.mats.pad( q.A,m,n ) : 0; }
		else { i.H=c.mats.dense( q.H,n*n ); i.A = m ? c.mats.dense( q.A,n*m ) : 0; }
	}
	if ( op==INIT1 ) { bool l=true,u=true; for( int k=0; k<m; ++k ) { if ( q.lbA[k]>-INF ) l=false; if ( q.ubA[k]<INF ) u=false; } if ( l ) i.lbA=0; if ( u ) i.ubA=0; }
	if ( op==HOTN ) { i.lb=0; i.lbA=0; i.cpu=&cpu; }
	double X[NMAX],Y[NMAX+MMAX]; for( int k=0; k<n; ++k ) X[k]=0.5*k-0.25; for( int k=0; k<n+m; ++k ) Y[k]=k%3==0 ? 1.0 : k%3==1 ? 0.0 : -2.0;
	if ( op==INITX || op==INITXY || op==INITXYG || op==INITG ) i.x=a->in( X,n );
	if ( op==INITY || op==INITXY || op==INITXYG ) i.y=a->in( Y,n+m );
	if ( op==INITG || op==INITXYG || op==HOTG )
	{
		gb.init( n ); for( int k=0; k<n; ++k ) gb.setupBound( k,k%2 ? ST_INACTIVE : q.lb[k]>-INF ? ST_LOWER : q.ub[k]<INF ? ST_UPPER : ST_INACTIVE ); i.gB=&gb; sB=dumpB( gb,n );
		if ( m ) { gc.init( m ); for( int k=0; k<m; ++k ) gc.setupConstraint( k,k%2==0 ? ST_INACTIVE : q.lbA[k]>-INF ? ST_LOWER : q.ubA[k]<INF ? ST_UPPER : ST_INACTIVE ); i.gC=&gc; sC=dumpC( gc,m ); }
	}
	std::vector<double> R; if ( op==INITR && chol( q.H,n,R ) ) i.R=a->in( R.data( ),n*n );
	if ( isInit ) rv = cInit( p,i,nw );
	else if ( isMat ) rv = cHotM( p,i,nw );
	else switch( op )
	{
		case HOT2: case HOT3: case HOT4: case HOTG: case HOTN: rv = cHot( p,i,nw ); break;
		case CUT: nw=1; rv = cHot( p,i,nw ); break;
		case HOTZERO: nw=0; rv = cHot( p,i,nw ); break;
		case RESET: rv = p.reset( ); break;
		case OPT: { Options o = variant( 8 ); o.initialStatusBounds = ST_UPPER; o.printLevel=PL_NONE; Options o2 = o; rv = p.setOptions( o ); p.setPrintLevel( PL_NONE ); if ( memcmp( &o.boundTolerance,&o2.boundTolerance,sizeof(double) ) ) c.bad="options changed"; } break;
		case COPY: { P* b = new P( p ); delete c.p; c.p = b; } break;
		case ASSIGN: { P* b = Dim<P>::make( n,m ); *b = p; *b = *b; p = *b; delete b; } break;
		case EQP: { if ( p.isSolved( )!=BT_TRUE ) break; double *x=(double*)malloc( n*8 ), *y=(double*)malloc( (n+m)*8 ); rv = cEqp( p,i,x,y ); if ( isQ( p ) && rv==SUCCESSFUL_RETURN ) { c.extra.insert( c.extra.end( ),x,x+n ); c.extra.insert( c.extra.end( ),y,y+n+m ); } free( x ); free( y ); } break;
		case ANA:
		{
			double *v=(double*)malloc( (2*n+m)*(2*n+m)*8 ), *v2=(double*)malloc( (2*n+m)*(2*n+m)*8 ); int k=2*n+m; for( int r=0; r<k*k; ++r ) v[r]= r/k==r%k ? 1.0 : 0.0;
			SolutionAnalysis sa; double kk = p.isInitialised( )==BT_TRUE ? kktv( sa,p ) : 0; c.extra.push_back( kk );
			rv = sens( sa,p,v,v2 );
			if ( rv==SUCCESSFUL_RETURN ) c.extra.insert( c.extra.end( ),v2,v2+k*k );
			free( v ); free( v2 );
		} break;
		case GETS:
		{
			double *x=(double*)malloc( n*8 ), *y=(double*)malloc( (n+m)*8 ), *ws=(double*)malloc( (n+m)*8 ), *wb=(double*)malloc( n*8 ), *wc=(double*)malloc( m*8+!m ), *xx=(double*)malloc( n*8 );
			if ( p.getPrimalSolution( x )==SUCCESSFUL_RETURN ) c.extra.insert( c.extra.end( ),x,x+n ); if ( p.getDualSolution( y )==SUCCESSFUL_RETURN ) c.extra.insert( c.extra.end( ),y,y+n+m );
			if ( p.getWorkingSet( ws )==SUCCESSFUL_RETURN && p.isInitialised( )==BT_TRUE ) c.extra.insert( c.extra.end( ),ws,ws+n+m ); p.getWorkingSetBounds( wb ); if ( m ) cWsC( p,wc );
			for( int k=0; k<n; ++k ) xx[k]=k+1; if ( p.isInitialised( )==BT_TRUE ) c.extra.push_back( p.getObjVal( xx ) );
			Bounds b; p.getBounds( b ); c.extra.push_back( p.getNZ( ) ); c.extra.push_back( p.getNFV( ) ); c.extra.push_back( p.getHessianType( ) ); c.extra.push_back( p.usingRegularisation( ) ); c.extra.push_back( p.getOptions( ).printLevel==PL_NONE ); c.extra.push_back( p.getCount( ) ); p.resetCounter( );
			free( x ); free( y ); free( ws ); free( wb ); free( wc ); free( xx );
		} break;
	}
	mc::transition( );
	int k = a->changed( ); if ( k>=0 && c.bad.empty( ) ) c.bad = mc::fmt( "input vector %d changed by %s",k,ON[op] );
	c.chk( ON[op] );
	if ( i.gB && dumpB( gb,n )!=sB ) c.bad = "guessed bounds changed by " + std::string( ON[op] );
	if ( i.gC && dumpC( gc,m )!=sC ) c.bad = "guessed constraints changed by " + std::string( ON[op] );
	if ( c.retain ) c.kept.push_back( a ); else { a->release( ); delete a; }
	Obs o = observe( *c.p,n,m,rv,nw );
	return o;
}
static std::string seqStr( const std::vector<int>& h ) { std::string s; for( int o : h ) s += std::string( " " ) + ON[o]; return s; }
static void note( const Obs& o, const World& w ) { mc::state( mc::hashBytes( o.x,sizeof(o.x),mc::hashBytes( o.y,sizeof(o.y),mc::hashBytes( o.ws,sizeof(o.ws),o.rv*64+o.st ) ) ) ^ mc::hashStr( w.name ) ); }
template<class P> static void inputs( const World& w, int var, const std::vector<int>& h )
{
	Ctx<P> c( w,var,false ), r( w,var,true );
	for( size_t k=0; k<h.size( ); ++k )
	{
		Obs o=doOp( c,h[k] ), q=doOp( r,h[k] ); note( o,w ); std::string why; if ( h[k]==HOTN ) ;
		if ( !c.bad.empty( ) ) { mc::fail( "input-modified",c.bad + mc::fmt( " (step %d)",(int)k ) ); return; }
		if ( !sameBits( o,q,w.n,w.m,&why ) ) { mc::fail( "input-referenced",mc::fmt( "step %d: freed inputs / retained inputs: ",(int)k ) + why ); return; }
		if ( c.extra.size( )!=r.extra.size( ) || ( c.extra.size( ) && memcmp( c.extra.data( ),r.extra.data( ),c.extra.size( )*8 ) ) ) { mc::fail( "input-referenced",mc::fmt( "step %d: getter outputs differ",(int)k ) ); return; }
	}
	delete c.p; c.p = 0; c.chk( "destruction" ); if ( !c.bad.empty( ) ) mc::fail( "input-modified",c.bad );
	mc::outcome( w.name + seqStr( h ) ); mc::traceValidated( ); mc::sample( w.name + ":" + seqStr( h ) );
}
template<class P> static void safety( const World& w, int var, const std::vector<int>& h )
{
	Ctx<P> c( w,var,false );
	for( size_t k=0; k<h.size( ); ++k )
	{
		Obs o=doOp( c,h[k] ); note( o,w ); bool fin = std::isfinite( o.obj ) ; for( int j=0; j<w.n; ++j ) fin &= std::isfinite( o.x[j] ) && std::isfinite( o.y[j] ); for( int j=0; j<w.m; ++j ) fin &= std::isfinite( o.y[w.n+j] );
		for( double e : c.extra ) fin &= std::isfinite( e );
		if ( !fin ) { mc::fail( "non-finite",mc::fmt( "step %d returns non-finite numbers: ",(int)k ) + o.str( w.n,w.m ) ); return; }
		if ( o.nFR<0 || o.nFX<0 || o.nFR+o.nFX>w.n || o.nAC+o.nIAC>w.m ) { mc::fail( "counts",mc::fmt( "step %d: nFR=%d nFX=%d nAC=%d nIAC=%d",(int)k,o.nFR,o.nFX,o.nAC,o.nIAC ) ); return; }
	}
	mc::outcome( w.name + seqStr( h ) ); mc::traceValidated( ); mc::sample( w.name + ":" + seqStr( h ) );
}
// ------------------------------------------------------------------------------------------------ invalid calls
#if PROP==16 || PROP==17
enum { B_INIT_G, B_INIT_GO, B_INIT_YWS, B_INIT_RX, B_INIT_RWS, B_INIT_SMALLB, B_INIT_SMALLC, B_INIT_A, B_INIT_AO, B_INIT_FILE, B_INIT_FILE0, B_INIT_FILEV, B_INIT_LAST=B_INIT_FILEV,
	B_HOT_G, B_HOT_SMALLB, B_HOT_SMALLC, B_HOT_FILE, B_HOT_FILE0, B_HOT_FILEV, B_M_G, B_M_GO, B_M_A, B_M_AO, B_M_H, B_M_HO, B_M_SMALLB, B_M_SMALLC, B_GETX, B_GETY, B_GETWS, B_GETWSB, B_GETWSC, B_EQP,
	B_U0 /* guesses lacking a status: 10 kinds of calls x 3 positions */, B_F0=B_U0+30 /* initialisations from (existing) files */, NBAD=B_F0+10 };
static const char* FBN[] = {"bounds guess without status at position 0 of 3","bounds guess without status at position 1 of 3","bounds guess without status at position 2 of 3","constraints guess without status at position 0 of 3","constraints guess without status at position 1 of 3","constraints guess without status at position 2 of 3","y+WS without x","R with x","R with WS","no constraint matrix"};
static std::string fdir;
static returnValue cInitF( QProblemB& p, const char** f, const In& i, int_t& n, const char* R ) { return p.init( f[0],f[1],f[3],f[4],n,0,i.x,i.y,i.gB,R ); }
static returnValue cInitF( QProblem& p, const char** f, const In& i, int_t& n, const char* R ) { return p.init( f[0],f[1],f[2],f[3],f[4],f[5],f[6],n,0,i.x,i.y,i.gB,i.gC,R ); }
static const char* UN[] = {"init, bounds guess","init, constraints guess","init(objects), bounds guess","init(objects), constraints guess","hotstart, bounds guess","hotstart, constraints guess","hotstart(matrices), bounds guess","hotstart(matrices), constraints guess","hotstart(objects), bounds guess","hotstart(objects), constraints guess"};
static std::string badName( int b );
static int upos( int b, int n ) { int p=( b-B_U0 )%3; return p==0 ? 0 : p==1 ? n/2 : n-1; }
static const char* BN[] = {"init g=NULL","init(objects) g=NULL","init y+WS without x","init R with x","init R with WS","init small bounds guess","init small constraints guess","init A=NULL","init(objects) A=NULL","init missing H file","init g_file=NULL","init missing ub file",
	"hotstart g=NULL","hotstart small bounds guess","hotstart small constraints guess","hotstart missing g file","hotstart g_file=NULL","hotstart missing ub file","hotstart(matrices) g=NULL","hotstart(objects) g=NULL","hotstart(matrices) A=NULL","hotstart(objects) A=NULL","hotstart(matrices) H=NULL","hotstart(objects) H=NULL","hotstart(matrices) small bounds guess","hotstart(matrices) small constraints guess","getPrimalSolution(NULL)","getDualSolution(NULL)","getWorkingSet(NULL)","getWorkingSetBounds(NULL)","getWorkingSetConstraints(NULL)","solveCurrentEQP outputs NULL"};
static std::string badName( int b ) { return b<B_U0 ? std::string( BN[b] ) : b>=B_F0 ? std::string( "init(files) " )+FBN[b-B_F0] : std::string( UN[(b-B_U0)/3] ) + mc::fmt( " without status at position %d of 3",( b-B_U0 )%3 ); }
static const char* NOFILE = "/nonexistent-qpoases-check";
static returnValue fInit( QProblemB& p, const char* H, const char* g, const char* ub, int_t& n ) { return p.init( H,g,0,ub,n ); }
static returnValue fInit( QProblem& p, const char* H, const char* g, const char* ub, int_t& n ) { return p.init( H,g,(const char*)(p.getNC( )?NOFILE:0),0,ub,0,0,n ); }
static returnValue fHot( QProblemB& p, const char* g, const char* ub, int_t& n ) { return p.hotstart( g,0,ub,n ); }
static returnValue fHot( QProblem& p, const char* g, const char* ub, int_t& n ) { return p.hotstart( g,0,ub,0,0,n ); }
template<class P> struct Mat_ { enum { v=0 }; }; template<> struct Mat_<SQProblem> { enum { v=1 }; };
template<class P> static bool applicable( int b, int n, int m, bool q ) { 
	if ( b>=B_F0 ) { int k=b-B_F0, pos=k%3, d=k>=3 ? m : n; return k<6 ? ( q || k<3 ) && d>pos && ( d>2 || pos!=1 ) : k<9 || m>0; }
	if ( b>=B_U0 ) { int k=( b-B_U0 )/3, pos=( b-B_U0 )%3, d=k%2 ? m : n; return ( q || k%2==0 ) && ( k<6 || Mat_<P>::v ) && d>pos && ( d>2 || pos!=1 ); }
	if ( b>=B_M_G && b<=B_M_SMALLC && !Mat_<P>::v ) return false;
	if ( !q && ( b==B_INIT_SMALLC || b==B_HOT_SMALLC || b==B_EQP || b==B_GETWSC ) ) return false;
	if ( m==0 && ( b==B_INIT_SMALLC || b==B_HOT_SMALLC || b==B_M_SMALLC || b==B_INIT_A || b==B_INIT_AO || b==B_M_A || b==B_M_AO || b==B_GETWSC ) ) return false;
	if ( m==1 && ( b==B_INIT_SMALLC || b==B_HOT_SMALLC || b==B_M_SMALLC ) ) return false;
	return true; }
template<class P> static returnValue badCall( Ctx<P>& c, int b )
{
	const World& w=c.w; const int n=w.n,m=w.m; P& p=*c.p; int_t nw=100; Arena a; In i; Bounds gb; Constraints gc; returnValue rv = SUCCESSFUL_RETURN;
	const int fk = b>=B_F0 ? b-B_F0 : -1, uk = b>=B_U0 && fk<0 ? ( b-B_U0 )/3 : -1; const QP& q=w.d[ uk>=0 ? ( uk==4 || uk==5 ? 3 : 1 ) : b>=B_M_G ? 1 : b>B_INIT_LAST ? 3 : 1 ];
	i.g=a.in( q.g,n ); i.lb=a.in( q.lb,n ); i.ub=a.in( q.ub,n ); if ( m ) { i.lbA=a.in( q.lbA,m ); i.ubA=a.in( q.ubA,m ); }
	const bool obj = b==B_INIT_GO || b==B_INIT_AO || b==B_M_GO || b==B_M_AO || b==B_M_HO || uk==2 || uk==3 || uk>=8;
	if ( obj ) { i.Ho=c.mats.symSparse( q.H,n ); i.Ao = m ? c.mats.sparse( q.A,m,n ) : 0; } else { i.H=c.mats.dense( q.H,n*n ); i.A = m ? c.mats.dense( q.A,n*m ) : 0; }
	std::vector<double> R( n*n,0.0 ); for( int k=0; k<n; ++k ) R[k*n+k]=1; double X[NMAX]={0},Y[NMAX+MMAX]={0}; Y[0]=1;
	gb.init( n ); gb.setupAllFree( ); if ( m ) { gc.init( m ); gc.setupAllInactive( ); }
	Bounds sb( n>1?n-1:1 ); sb.setupAllFree( ); Constraints sc( m>1?m-1:1 ); sc.setupAllInactive( );
	if ( fk>=0 )
	{
		static const char* FN_[] = {"H","g","A","lb","ub","lbA","ubA","R"}; std::string fn[8]; const char* f[8]; const double* dt[8] = {q.H,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA,R.data( )}; const int sz[8] = {n*n,n,m*n,n,n,m,m,n*n}, cols[8] = {n,1,n,1,1,1,1,n};
		for( int j=0; j<8; ++j )
		{
			fn[j] = fdir + mc::fmt( "/%d_%s",mc::self,FN_[j] ); f[j] = sz[j] ? fn[j].c_str( ) : 0; if ( !sz[j] ) continue;
			FILE* o = fopen( f[j],"w" ); for( int e=0; e<sz[j]; ++e ) fprintf( o,"%.17g%s",dt[j][e],( e+1 )%cols[j] ? " " : "\n" ); fclose( o );
		}
		if ( fk<3 ) { const int at=fk==0 ? 0 : fk==1 ? n/2 : n-1; gb.init( n ); for( int k=0; k<n; ++k ) if ( k!=at ) gb.setupBound( k,ST_INACTIVE ); }
		else if ( fk<6 ) { const int at=fk==3 ? 0 : fk==4 ? m/2 : m-1; gc.init( m ); for( int k=0; k<m; ++k ) if ( k!=at ) gc.setupConstraint( k,ST_INACTIVE ); }
		if ( fk<7 || fk==8 ) { i.gB=&gb; if ( m && !IsSimple<P>::v ) i.gC=&gc; }
		if ( fk==6 ) i.y=a.in( Y,n+m );
		if ( fk==7 ) i.x=a.in( X,n );
		if ( fk==9 ) f[2]=0;
		rv = cInitF( p,f,i,nw,fk==7 || fk==8 ? f[7] : 0 );
		for( int j=0; j<8; ++j ) if ( sz[j] ) unlink( fn[j].c_str( ) );
		int k=a.changed( ); if ( k>=0 ) c.bad = mc::fmt( "input vector %d changed",k );
		c.chk( badName( b ).c_str( ) );
		return rv;
	}
	if ( uk>=0 )
	{
		if ( uk%2==0 ) { const int at=upos( b,n ); gb.init( n ); for( int k=0; k<n; ++k ) if ( k!=at ) gb.setupBound( k,ST_INACTIVE ); }
		else { const int at=upos( b,m ); gc.init( m ); for( int k=0; k<m; ++k ) if ( k!=at ) gc.setupConstraint( k,ST_INACTIVE ); }
		i.gB=&gb; if ( m && !IsSimple<P>::v ) i.gC=&gc;
	}
	switch( b )
	{
		case B_INIT_G: case B_INIT_GO: i.g=0; break;
		case B_INIT_YWS: i.y=a.in( Y,n+m ); i.gB=&gb; if ( m ) i.gC=&gc; break;
		case B_INIT_RX: i.R=a.in( R.data( ),n*n ); i.x=a.in( X,n ); break;
		case B_INIT_RWS: i.R=a.in( R.data( ),n*n ); i.gB=&gb; break;
		case B_INIT_SMALLB: case B_HOT_SMALLB: case B_M_SMALLB: i.gB=&sb; if ( m ) i.gC=&gc; break;
		case B_INIT_SMALLC: case B_HOT_SMALLC: case B_M_SMALLC: i.gC=&sc; i.gB=&gb; break;
		case B_INIT_A: case B_M_A: i.A=0; break;
		case B_INIT_AO: case B_M_AO: i.Ao=0; break;
		case B_HOT_G: case B_M_G: case B_M_GO: i.g=0; break;
		case B_M_H: i.H=0; break;
	}
	if ( uk>=0 ) rv = uk<4 ? cInit( p,i,nw ) : uk<6 ? cHot( p,i,nw ) : cHotM( p,i,nw );
	else if ( b<=B_INIT_AO ) rv=cInit( p,i,nw );
	else if ( b==B_INIT_FILE ) rv=fInit( p,NOFILE,NOFILE,0,nw );
	else if ( b==B_INIT_FILE0 ) rv=fInit( p,NOFILE,0,0,nw );
	else if ( b==B_INIT_FILEV ) rv=fInit( p,NOFILE,NOFILE,NOFILE,nw );
	else if ( b<=B_HOT_SMALLC ) rv=cHot( p,i,nw );
	else if ( b==B_HOT_FILE ) rv=fHot( p,NOFILE,0,nw );
	else if ( b==B_HOT_FILE0 ) rv=fHot( p,0,0,nw );
	else if ( b==B_HOT_FILEV ) rv=fHot( p,NOFILE,NOFILE,nw );
	else if ( b==B_M_HO ) { In j=i; j.Ho=0; rv = hotObj( p,j,nw ); }
	else if ( b<=B_M_SMALLC ) rv=cHotM( p,i,nw );
	else switch( b )
	{
		case B_GETX: rv=p.getPrimalSolution( 0 ); break;
		case B_GETY: rv=p.getDualSolution( 0 ); break;
		case B_GETWS: rv=p.getWorkingSet( 0 ); break;
		case B_GETWSB: rv=p.getWorkingSetBounds( 0 ); break;
		case B_GETWSC: rv=p.getWorkingSetConstraints( 0 ); break;
		case B_EQP: rv=eqpNull( p,i ); break;
	}
	int k=a.changed( ); if ( k>=0 ) c.bad = mc::fmt( "input vector %d changed",k );
	c.chk( badName( b ).c_str( ) );
	return rv;
}
#endif

#if PROP==17
// one call taking its data from files, of which one is missing, empty, too short or not numeric
enum { F_INIT, F_INITG, F_HOT, F_HOTG, F_MAT, F_MATG, NFKIND };
static const char* FKN[] = {"init(files)","init(files, guesses)","hotstart(files)","hotstart(files, guess)","hotstart(files with matrices)","hotstart(files with matrices, guess)"};
static const char* FDN[] = {"intact","missing","empty","one number short","not numeric at the end","not numeric at the start","omitted"};
static const char* FFN[] = {"H","g","A","lb","ub","lbA","ubA","R"};
static returnValue cHotF( QProblemB& p, const char** f, const In& i, int_t& n ) { return p.hotstart( f[1],f[3],f[4],n,i.cpu,i.gB ); }
static returnValue cHotF( QProblem& p, const char** f, const In& i, int_t& n ) { return p.hotstart( f[1],f[3],f[4],f[5],f[6],n,i.cpu,i.gB,i.gC ); }
static returnValue cMatF( QProblemB&, const char**, const In&, int_t& ) { return RET_INVALID_ARGUMENTS; }
static returnValue cMatF( SQProblem& p, const char** f, const In& i, int_t& n ) { return p.hotstart( f[0],f[1],f[2],f[3],f[4],f[5],f[6],n,i.cpu,i.gB,i.gC ); }
template<class P> static returnValue fileCall( Ctx<P>& c, int kind, int file, int defect )
{
	const World& w=c.w; const int n=w.n,m=w.m; P& p=*c.p; int_t nw=100; const QP& q=w.d[ kind>=F_MAT ? 1 : kind>=F_HOT ? 2 : 0 ]; std::vector<double> R( n*n,0.0 ); const bool haveR = chol( q.H,n,R );
	const double* dt[8] = {q.H,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA,R.data( )}; const int sz[8] = {n*n,n,m*n,n,n,m,m,n*n}, cols[8] = {n,1,n,1,1,1,1,n}; std::string fn[8]; const char* f[8];
	for( int j=0; j<8; ++j )
	{
		fn[j] = fdir + mc::fmt( "/%d_%s",mc::self,FFN[j] ); f[j] = sz[j] ? fn[j].c_str( ) : 0; if ( !sz[j] ) continue;
		const int d = j==file ? defect : 0; unlink( f[j] ); if ( d==6 ) { f[j]=0; continue; } if ( d==1 ) continue;
		FILE* o = fopen( f[j],"w" ); if ( !o ) { mc::fail( "harness","cannot write data file" ); return RET_INVALID_ARGUMENTS; }
		if ( d!=2 ) for( int e=0; e<sz[j]-( d==3 ); ++e ) if ( ( d==4 && e==sz[j]-1 ) || ( d==5 && e==0 ) ) fprintf( o,"x\n" ); else fprintf( o,"%.17g%s",dt[j][e],( e+1 )%cols[j] ? " " : "\n" );
		fclose( o );
	}
	Bounds gb( n ); gb.setupAllFree( ); Constraints gc( m ); if ( m ) gc.setupAllInactive( ); In i; double X[NMAX]={0}; Arena a;
	if ( kind%2 ) { i.gB=&gb; if ( m ) i.gC=&gc; }
	if ( kind==F_INIT && file!=7 ) i.x=a.in( X,n );
	returnValue rv = kind<=F_INITG ? cInitF( p,f,i,nw,file==7 && haveR ? f[7] : 0 ) : kind<=F_HOTG ? cHotF( p,f,i,nw ) : cMatF( p,f,i,nw );
	for( int j=0; j<8; ++j ) if ( sz[j] ) unlink( fn[j].c_str( ) );
	int k=a.changed( ); if ( k>=0 ) c.bad = mc::fmt( "input vector %d changed",k ); a.release( ); mc::transition( );
	return rv;
}
template<class P> static bool fine( Ctx<P>& c, const Obs& o, const char* what )
{
	const World& w=c.w; bool fin = std::isfinite( o.obj ); for( int j=0; j<w.n; ++j ) fin &= std::isfinite( o.x[j] ) && std::isfinite( o.y[j] ); for( int j=0; j<w.m; ++j ) fin &= std::isfinite( o.y[w.n+j] ); for( double e : c.extra ) fin &= std::isfinite( e );
	note( o,w ); if ( !fin ) mc::fail( "non-finite",std::string( what ) + " returns non-finite numbers: " + o.str( w.n,w.m ) ); return fin;
}
// history, call with (perhaps damaged) files or rejected call, continuation
template<class P> static void fileSafety( const World& w, int var, const std::vector<int>& h, int kind, int file, int defect, const std::vector<int>& cont )
{
	Ctx<P> c( w,var,false ); for( int o : h ) doOp( c,o );
	returnValue rv = kind>=0 ? fileCall( c,kind,file,defect ) : badCall( c,file ); c.extra.clear( );
	if ( !fine( c,observe( *c.p,w.n,w.m,rv,0 ),"the call" ) ) return;
	for( int o : cont ) if ( !fine( c,doOp( c,o ),ON[o] ) ) return;
	mc::outcome( w.name + mc::fmt( " %d %d %d %d",kind,file,defect,(int)rv ) + seqStr( h ) ); mc::traceValidated( ); mc::sample( w.name + ":" + seqStr( h ) + mc::fmt( " | call %d file %d defect %d -> %d |",kind,file,defect,(int)rv ) + seqStr( cont ) );
}
#endif
#if PROP==16
template<class P> static void rejected( const World& w, int var, const std::vector<int>& h, int b, const std::vector<int>& cont )
{
	const bool ini = b<=B_INIT_LAST || ( b>=B_U0 && b<B_U0+12 ) || b>=B_F0; std::string why;
	Ctx<P> a( w,var,false ); for( int o : h ) doOp( a,o );
	const bool wasInit = a.p->isInitialised( )==BT_TRUE;
	Obs before = observe( *a.p,w.n,w.m,SUCCESSFUL_RETURN,0 );
	returnValue rv = badCall( a,b );
	Obs after = observe( *a.p,w.n,w.m,SUCCESSFUL_RETURN,0 );
	if ( rv==SUCCESSFUL_RETURN ) { mc::fail( "accepted",badName( b ) + " returned success" ); return; }
	if ( !a.bad.empty( ) ) { mc::fail( "input-modified",a.bad ); return; }
	Ctx<P> t( w,var,false ); for( int o : h ) doOp( t,o );
	bool same = sameBits( after,before,w.n,w.m,&why );
	if ( !same && ini && wasInit ) { doOp( t,RESET ); Obs r = observe( *t.p,w.n,w.m,SUCCESSFUL_RETURN,0 ); same = sameBits( after,r,w.n,w.m,&why ); }
	if ( !same ) { mc::fail( "object-changed",badName( b ) + mc::fmt( " (returned %d): ",(int)rv ) + why ); return; }
	for( size_t k=0; k<cont.size( ); ++k )
	{
		Obs x=doOp( a,cont[k] ), y=doOp( t,cont[k] ); note( x,w );
		if ( !sameBits( x,y,w.n,w.m,&why ) ) { mc::fail( "later-results-changed",badName( b ) + mc::fmt( " (returned %d), continuation step %d: ",(int)rv,(int)k ) + why ); return; }
		if ( a.extra.size( )!=t.extra.size( ) || ( a.extra.size( ) && memcmp( a.extra.data( ),t.extra.data( ),a.extra.size( )*8 ) ) ) { mc::fail( "later-results-changed",badName( b ) + mc::fmt( " (returned %d), continuation step %d: getter outputs differ",(int)rv,(int)k ) ); return; }
	}
	mc::outcome( w.name + mc::fmt( " %d",(int)rv ) + badName( b ) + seqStr( h ) ); mc::traceValidated( ); mc::sample( w.name + ":" + seqStr( h ) + " | " + badName( b ) + mc::fmt( " -> %d |",(int)rv ) + seqStr( cont ) );
}
// objects without dimension: every call is refused, copying and destroying works
template<class P> static void emptyObj( int how, int op )
{
	P* p = how==1 ? new P( P( ) ) : new P( ); P other; if ( how==2 ) { *p = other; }
	if ( how==3 ) { P* r = Dim<P>::make( 2,2 ); *r = *p; delete p; p = r; }
	double H[4]={1,0,0,1},z[8]={0}; int_t n=10; returnValue rv=RET_INVALID_ARGUMENTS; In i; i.H=H; i.A=H; i.g=i.lb=i.ub=i.lbA=i.ubA=z; Bounds gb( 2 ); gb.setupAllFree( );
	SymDenseMat Ho( 2,2,2,H ); DenseMatrix Ao( 2,2,2,H ); const char* nm="";
	switch( op )
	{
		case 0: nm="init"; rv=cInit( *p,i,n ); break;
		case 1: nm="init(objects)"; i.Ho=&Ho; i.Ao=&Ao; rv=cInit( *p,i,n ); break;
		case 2: nm="init with guesses"; i.x=z; i.y=z; i.gB=&gb; rv=cInit( *p,i,n ); break;
		case 3: nm="init from files"; rv=fInit( *p,NOFILE,NOFILE,0,n ); break;
		case 4: nm="hotstart"; rv=cHot( *p,i,n ); break;
		case 5: nm="hotstart with guess"; i.gB=&gb; rv=cHot( *p,i,n ); break;
		case 6: nm="hotstart from files"; rv=fHot( *p,NOFILE,0,n ); break;
		case 7: nm="hotstart with matrices"; rv=cHotM( *p,i,n ); break;
		case 8: nm="hotstart with matrix objects"; i.Ho=&Ho; i.Ao=&Ao; rv=cHotM( *p,i,n ); break;
		case 9: nm="getPrimalSolution"; rv=p->getPrimalSolution( z ); break;
		case 10: nm="getDualSolution"; rv=p->getDualSolution( z ); break;
		case 11: nm="queries"; p->reset( ); p->getWorkingSet( z ); p->getObjVal( ); p->getObjVal( z ); if ( p->isSolved( )==BT_TRUE || p->isInitialised( )==BT_TRUE || p->isInfeasible( )==BT_TRUE || p->isUnbounded( )==BT_TRUE || p->getNV( )!=0 || p->getNFR( )!=0 || p->getNFX( )!=0 || p->getNZ( )!=0 ) rv=SUCCESSFUL_RETURN; break;
		case 12: nm="sensitivity"; { double v[64]={0},v2[64]; SolutionAnalysis s; rv=sens( s,*p,v,v2 ); } break;
	}
	if ( rv==SUCCESSFUL_RETURN ) mc::fail( "accepted",std::string( nm ) + " on an empty object returned success" );
	if ( p->isSolved( )==BT_TRUE ) mc::fail( "object-changed",std::string( nm ) + " on an empty object claims a solution" );
	P q( *p ); *p = q; delete p;
	mc::outcome( mc::fmt( "empty %d %d %d",how,op,(int)rv ) ); mc::traceValidated( ); mc::transition( );
}
// non-positive dimensions: an error is reported and the object is usable with the corrected dimensions
template<class P> static void badDims( int nv, int nc )
{
	P* p = Dim<P>::make( nv,nc ); int V = p->getNV( ), C = isQ( *p ) ? ((QProblem*)(QProblemB*)p)->getNC( ) : 0; Options o; o.printLevel=PL_NONE; p->setOptions( o );
	if ( V<0 || C<0 || V>16 || C>16 || ( nv>0 && V!=nv ) || ( isQ( *p ) && nc>=0 && C!=nc ) ) { mc::fail( "dimensions",mc::fmt( "nV=%d nC=%d",V,C ) ); delete p; return; }
	std::vector<double> H( V*V+1,0.0 ),A( C*V+1,1.0 ),g( V+1,1.0 ),l( V+1,-1.0 ),u( V+1,2.0 ),lA( C+1,-9.0 ),uA( C+1,9.0 ),x( V+1,7.0 ); for( int k=0; k<V; ++k ) H[k*V+k]=1;
	In i; i.H=H.data( ); i.A=A.data( ); i.g=g.data( ); i.lb=l.data( ); i.ub=u.data( ); i.lbA=lA.data( ); i.ubA=uA.data( ); int_t n=100;
	returnValue rv=cInit( *p,i,n ); if ( V>0 ) { p->getPrimalSolution( x.data( ) ); if ( rv!=SUCCESSFUL_RETURN || fabs( x[0]+1 )>1e-6 ) mc::fail( "dimensions",mc::fmt( "object created with (%d,%d): init returns %d, x0=%g",nv,nc,(int)rv,x[0] ) ); } else if ( rv==SUCCESSFUL_RETURN ) mc::fail( "dimensions","init of an empty object succeeds" );
	delete p; mc::outcome( mc::fmt( "dims %d %d",nv,nc ) ); mc::traceValidated( ); mc::transition( );
}
#endif
static QP mk( int n, int m, std::vector<double> H, std::vector<double> g, std::vector<double> A, std::vector<int> b, std::vector<int> c )
{
	QP q; q.n=n; q.m=m; for( int i=0; i<n*n; ++i ) q.H[i]=H[i]; for( int i=0; i<n; ++i ) { q.g[i]=g[i]; q.lb[i]=RANGES[b[i]].l; q.ub[i]=RANGES[b[i]].u; }
	for( int i=0; i<n*m; ++i ) q.A[i]=A[i]; for( int i=0; i<m; ++i ) { q.lbA[i]=RANGES[c[i]].l; q.ubA[i]=RANGES[c[i]].u; } return q;
}
static mc::u64 ipow( mc::u64 b, int e ) { mc::u64 r=1; while( e-- ) r*=b; return r; }
int main( int argc, char** argv )
{
	#if PROP==16 || PROP==17
	char fd[] = "/tmp/qpcallsXXXXXX"; if ( !mkdtemp( fd ) ) { perror( "mkdtemp" ); return 2; } fdir = fd;
	#endif
	int ret = mc::main( argc,argv,PROP==15?"C15":PROP==16?"C16":"C17",RULE,[]
	{
		W.clear( ); const bool T = mc::thorough;
		auto world = [&]( const char* nm, int n, int m, std::vector<double> H, std::vector<double> A, std::vector<double> H1, std::vector<double> A1, std::vector<double> g0, std::vector<double> g1, std::vector<double> g2, std::vector<int> b0, std::vector<int> b1, std::vector<int> b2, std::vector<int> c0, std::vector<int> c1, std::vector<int> c2, std::vector<int> binf )
		{
			World w; w.name=nm; w.n=n; w.m=m; w.d.push_back( mk( n,m,H,g0,A,b0,c0 ) ); w.d.push_back( mk( n,m,H1,g1,A1,b1,c1 ) ); w.d.push_back( mk( n,m,H,g1,A,b1,c1 ) ); w.d.push_back( mk( n,m,H,g2,A,b2,c2 ) ); w.d.push_back( mk( n,m,H,g0,A,binf,c0 ) ); W.push_back( w );
		};
		std::vector<double> E;
		world( "B1",1,0,{2},E,{1},E,{-2},{3},{-5},{0},{2},{1},{},{},{},{7} );
		world( "B3",3,0,{2,1,0,1,2,-1,0,-1,2},E,{3,0,0,0,2,0,0,0,1},E,{-2,1,3},{3,3,-3},{-5,4,0},{0,0,1},{2,5,3},{1,4,0},{},{},{},{0,7,0} );
		world( "B3s",3,0,{1,-1,0,-1,1,0,0,0,0},E,{2,1,0,1,2,0,0,0,1},E,{-2,1,3},{3,3,-3},{-5,4,0},{0,0,0},{0,5,6},{5,4,0},{},{},{},{0,7,0} );
		world( "Q11",1,1,{0},{1},{1},{2},{-2},{3},{-5},{0},{5},{6},{3},{2},{5},{7} );
		world( "Q22",2,2,{2,-1,-1,2},{1,1,1,-1},{1,0,0,1},{2,1,0,1},{-2,1},{3,3},{-5,4},{0,0},{2,5},{1,4},{0,3},{5,0},{2,0},{0,7} );
		world( "Q32",3,2,{2,1,0,1,2,-1,0,-1,2},{1,1,1,1,-1,0},{3,0,0,0,2,0,0,0,1},{1,0,1,0,1,1},{-2,1,3},{3,3,-3},{-5,4,0},{0,0,1},{2,5,3},{1,4,0},{0,3},{5,2},{4,0},{0,7,0} );
		world( "Q22z",2,2,{0,0,0,0},{1,1,1,-1},{1,0,0,1},{2,1,0,1},{-2,1},{3,3},{-5,4},{0,0},{0,5},{0,6},{0,3},{2,0},{2,0},{0,7} );
		world( "Q23",2,3,{1,0,0,1},{1,1,1,-1,1,2},{2,1,1,2},{0,1,1,0,1,1},{-4,1},{3,3},{-5,4},{0,0},{2,5},{0,4},{0,3,0},{5,2,0},{4,0,2},{0,7} );
		world( "Q32n",3,2,{1,2,0,2,-1,0,0,0,-2},{1,1,1,1,-1,0},{-1,2,0,2,1,1,0,1,-1},{1,0,0,0,1,0},{-4,1,3},{3,3,-3},{-5,4,-1},{0,0,0},{0,5,0},{0,6,0},{0,5},{5,2},{0,0},{0,7,0} );
		static const int VARS[] = {0,2,14,1,7,3,12,10,4};
		for( size_t wi=0; wi<W.size( ); ++wi )
			for( int c=0; c<3; ++c )
			{
				if ( ( c==0 ) != ( W[wi].m==0 ) && !( c!=0 && wi==1 ) ) continue;      // one world without constraints also for QProblem / SQProblem
				std::string nm = W[wi].name + ( c==0?"_QProblemB":c==1?"_QProblem":"_SQProblem" );
				std::vector<int> al; for( int o=0; o<NOPS; ++o ) if ( ( c==2 || ( o!=MAT1 && o!=MATS ) ) && ( c!=0 || o!=EQP ) ) al.push_back( o );
				#define DISP( FN,... ) ( c==0 ? FN<QProblemB>( __VA_ARGS__ ) : c==1 ? FN<QProblem>( __VA_ARGS__ ) : FN<SQProblem>( __VA_ARGS__ ) )
				#if PROP==15 || PROP==17
				int len = T?4:3, nv = T || PROP==17 ? 4 : 2;
				// quick: first call an initialisation (C17: any call at depth 2)
				for( int l=1; l<=len; ++l ) if ( PROP==17 || l==len )
				mc::addSection( nm + mc::fmt( "_len%d",l ),ipow( al.size( ),l )*( l<len ? 4 : nv ),[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( l<len ? 4 : nv )]; std::vector<int> h; for( int k=0; k<l; ++k ) h.push_back( al[d( al.size( ) )] );
					if ( l>=( PROP==17 ? 4 : 3 ) && h[0]>INITR ) { mc::stat( "skipped: longest sequences start with an initialisation" ); return; }
					std::string vn; variant( var,&vn ); mc::key( nm + " " + vn + ":" + seqStr( h ) ); mc::evaluation( );
					#if PROP==15
					DISP( inputs,W[wi],var,h );
					#else
					size_t before = __sanitizer_get_current_allocated_bytes( ); DISP( safety,W[wi],var,h );
					if ( __sanitizer_get_current_allocated_bytes( )>before )       // confirm on a second execution (first use of some library buffers)
					{ before = __sanitizer_get_current_allocated_bytes( ); DISP( safety,W[wi],var,h ); size_t after = __sanitizer_get_current_allocated_bytes( ); if ( after>before ) mc::fail( "leak",mc::fmt( "%d bytes not freed",(int)( after-before ) ) ); }
					#endif
				} );
				#if PROP==17
				static const std::vector<std::vector<int> > FH = {{},{INIT0},{INIT0,HOT2},{INITS},{INIT0,CUT},{INIT0,RESET}}, FC = {{},{HOT3},{INIT0,HOT3},{COPY,GETS}};
				const int NFH = T?6:4, NFC = T?4:3;
				auto run = [=]( const std::string& key, const std::function<void()>& fn )
				{
					mc::key( key ); mc::evaluation( ); size_t before = __sanitizer_get_current_allocated_bytes( ); fn( );
					if ( __sanitizer_get_current_allocated_bytes( )>before ) { before = __sanitizer_get_current_allocated_bytes( ); fn( ); size_t after = __sanitizer_get_current_allocated_bytes( ); if ( after>before ) mc::fail( "leak",mc::fmt( "%d bytes not freed",(int)( after-before ) ) ); }
				};
				mc::addSection( nm + "_files",(mc::u64)NFKIND*8*7*NFH*NFC*nv,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( nv )], kind=d( NFKIND ), file=d( 8 ), defect=d( 7 ), hi=d( NFH ), ci=d( NFC );
					if ( ( kind>=F_MAT && c!=2 ) || ( file==7 && kind>F_INITG ) || ( ( file==2 || file==5 || file==6 ) && ( W[wi].m==0 || c==0 ) ) || ( defect==0 && file!=0 && file!=7 ) || ( ( file==0 || file==2 ) && defect && kind>=F_HOT && kind<F_MAT ) ) return;
					std::string vn; variant( var,&vn ); const std::vector<int> &h=FH[hi], &co=FC[ci]; std::string key = nm + " " + vn + ":" + seqStr( h ) + " | " + FKN[kind] + " " + FFN[file] + " " + FDN[defect] + " |" + seqStr( co );
					run( key,[&]{ DISP( fileSafety,W[wi],var,h,kind,file,defect,co ); } );
				} );
				mc::addSection( nm + "_rejected",(mc::u64)NBAD*NFH*NFC*nv,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( nv )], b=d( NBAD ), hi=d( NFH ), ci=d( NFC );
					if ( !( c==0 ? applicable<QProblemB>( b,W[wi].n,W[wi].m,false ) : c==1 ? applicable<QProblem>( b,W[wi].n,W[wi].m,true ) : applicable<SQProblem>( b,W[wi].n,W[wi].m,true ) ) || ( W[wi].n==1 && ( b==B_INIT_SMALLB || b==B_HOT_SMALLB || b==B_M_SMALLB ) ) ) return;
					std::string vn; variant( var,&vn ); const std::vector<int> &h=FH[hi], &co=FC[ci];
					run( nm + " " + vn + ":" + seqStr( h ) + " | " + badName( b ) + " |" + seqStr( co ),[&]{ DISP( fileSafety,W[wi],var,h,-1,b,0,co ); } );
				} );
				#endif
				#else
				static const std::vector<int> HO = {INIT0,INIT1,INITS,HOT2,HOT4,CUT,MAT1,RESET}, CO = {HOT3,INIT0,CUT,HOTG,MAT1,GETS,INITXYG};
				std::vector<int> ho,co; for( int o : HO ) if ( o!=MAT1 || c==2 ) ho.push_back( o ); for( int o : CO ) if ( o!=MAT1 || c==2 ) co.push_back( o );
				int lh = T?3:2, nv = T?4:2; mc::u64 nh=0; for( int l=0; l<=lh; ++l ) nh += ipow( ho.size( ),l );
				mc::u64 nc = T ? co.size( )*co.size( ) : co.size( );
				mc::addSection( nm,nh*NBAD*nc*nv,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( nv )], b=d( NBAD ); std::vector<int> cont; cont.push_back( co[d( co.size( ) )] ); cont.push_back( T ? co[d( co.size( ) )] : HOT3 );
					mc::u64 k=d( nh ); std::vector<int> h; int l=0; while( k>=ipow( ho.size( ),l ) ) { k-=ipow( ho.size( ),l ); ++l; } for( int j=0; j<l; ++j ) { h.push_back( ho[k%ho.size( )] ); k/=ho.size( ); }
					if ( !( c==0 ? applicable<QProblemB>( b,W[wi].n,W[wi].m,false ) : c==1 ? applicable<QProblem>( b,W[wi].n,W[wi].m,true ) : applicable<SQProblem>( b,W[wi].n,W[wi].m,true ) ) || ( W[wi].n==1 && ( b==B_INIT_SMALLB || b==B_HOT_SMALLB || b==B_M_SMALLB ) ) ) return;
					std::string vn; variant( var,&vn ); mc::key( nm + " " + vn + ":" + seqStr( h ) + " | " + badName( b ) + " |" + seqStr( cont ) ); mc::evaluation( );
					DISP( rejected,W[wi],var,h,b,cont );
				} );
				#endif
			}
		#if PROP==16
		mc::addSection( "empty",3*4*13,[=]( mc::u64 i ) { mc::Dec d( i ); int c=d( 3 ), how=d( 4 ), op=d( 13 ); mc::key( mc::fmt( "empty object class %d, created %d, call %d",c,how,op ) ); mc::evaluation( ); DISP( emptyObj,how,op ); } );
		mc::addSection( "dims",3*5*5,[=]( mc::u64 i ) { mc::Dec d( i ); int c=d( 3 ), nv=(int)d( 5 )-2, nc=(int)d( 5 )-2; mc::key( mc::fmt( "object class %d created with nV=%d nC=%d",c,nv,nc ) ); mc::evaluation( ); DISP( badDims,nv,nc ); } );
		#endif
	} );
	#if PROP==16 || PROP==17
	if ( fdir.compare( 0,12,"/tmp/qpcalls" )==0 && fdir.size( )==18 ) { std::string cmd = "rm -rf '" + fdir + "'"; if ( system( cmd.c_str( ) ) ) {} }
	#endif
	return ret;
}
