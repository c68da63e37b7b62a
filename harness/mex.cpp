// C26: the Octave and MATLAB interfaces do what the C++ classes do.  The real mex files run inside an embedded Octave interpreter;
// every call is mirrored on C++ objects (reference model) and compared bit by bit.
#include <octave/oct.h>
#include <octave/interpreter.h>
#include <octave/parse.h>
#include <octave/ov-struct.h>
#undef PRINTF_FUNC
#include <qpOASES.hpp>
#include <malloc.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes( );
#include "mc.hpp"
namespace Q = qpOASES;
using Q::real_t; using Q::int_t;
static const char* RULE = "All call sequences up to the depth (third call: one in three, by the sum of the first two) over {init of simply bounded and constrained instances in every matrix form, hotstart, matrix change, equality-constrained solve, cleanup, wrong kinds of calls, unknown handles} on two handles; all one-shot calls over data x matrix forms x empty limits x columns x options x auxiliary inputs x numbers of outputs; "
	"every argument of every call form x every kind of bad value in every state; every option; both interface variants (octave, matlab) in a real Octave interpreter.";
enum { N=3, M=2, NK=6 };
static const double INF = INFINITY;

// ---------------------------------------------------------------- interpreter
static octave::interpreter* ip=0; static std::string mexDir;
static std::string lastErr;
static void boot( )
{
	if ( ip ) return;
	ip = new octave::interpreter; ip->initialize_history( false ); ip->initialize_load_path( false ); ip->read_init_files( false ); ip->read_site_files( false ); ip->execute( );
	mexDir = getenv( "MC_MEX" ); octave_value_list a; a( 0 )=mexDir; ip->feval( "addpath",a,0 );
	octave_value_list w; w( 0 )="off"; ip->feval( "warning",w,0 );
}
// call; false: error raised
static bool call( const std::string& f, const octave_value_list& in, int nout, octave_value_list& out )
{
	out = octave_value_list( ); lastErr=""; mc::transition( );
	try { out = ip->feval( f,in,nout ); return true; }
	catch( const octave::execution_exception& e ) { lastErr=e.message( ); ip->recover_from_exception( ); return false; }
}

// ---------------------------------------------------------------- data
struct D { double H[9],g[3],A[6],lb[3],ub[3],lA[2],uA[2]; };
static D data( int k )
{
	static const D T[NK] = {
		{ {3,1,0,1,2,-1,0,-1,4},{-2,1,3},{1,2,0,0,1,-1},{-1,0,-2},{1,2,1},{-1,-INF},{0.5,1} },
		{ {2,0,1,0,3,0,1,0,2},{4,-5,1},{1,0,1,2,-1,0},{-INF,-1,-1},{1,INF,1},{0.25,0},{INF,0} },
		{ {3,1,0,1,2,-1,0,-1,4},{1,1,-1},{1,1,1,1,0,-1},{0,0,0},{1,1,1},{4,-1},{5,1} },
		{ {1,-1,0,-1,1,0,0,0,0},{-1,2,1},{1,1,1,0,2,-1},{-2,-2,-2},{2,3,2},{-1,-2},{1,2} },
		{ {1,-1,0,-1,1,0,0,0,0},{-1,-2,-1},{1,0,1,0,1,1},{-INF,-INF,-INF},{INF,INF,INF},{-1,0},{INF,INF} },
		{ {0,0,0,0,0,0,0,0,0},{1,-2,0.5},{1,1,0,0,1,2},{-1,-1,-1},{1,1,1},{-1,0},{1,1.5} } };
	return T[k];
}
static ::Matrix om( const double* p, int r, int c ) { ::Matrix m( r,c ); for( int i=0; i<r; ++i ) for( int j=0; j<c; ++j ) m( i,j )=p[i*c+j]; return m; }   // row-major source
static octave_value col( const double* p, int n ) { ::Matrix m( n,1 ); for( int i=0; i<n; ++i ) m( i,0 )=p[i]; return octave_value( m ); }
static octave_value mat( const double* p, int r, int c, int form ) { if ( form==2 ) return octave_value( ::Matrix( ) ); if ( form==1 ) return octave_value( SparseMatrix( om( p,r,c ) ) ); return octave_value( om( p,r,c ) ); }
static octave_value vecOr( const double* p, int n, bool empty ) { return empty ? octave_value( ::Matrix( ) ) : col( p,n ); }

// ---------------------------------------------------------------- options: the struct as documented and what it must mean
struct OptF { const char* nm; int kind; };       // 0 real, 1 int, 2 bool, 3 status
static const OptF OF[] = { {"enableRamping",2},{"enableFarBounds",2},{"enableFlippingBounds",2},{"enableRegularisation",2},{"enableFullLITests",2},{"enableNZCTests",2},{"enableDriftCorrection",1},{"enableCholeskyRefactorisation",1},{"enableEqualities",2},
	{"terminationTolerance",0},{"boundTolerance",0},{"boundRelaxation",0},{"epsNum",0},{"epsDen",0},{"maxPrimalJump",0},{"maxDualJump",0},{"initialRamping",0},{"finalRamping",0},{"initialFarBounds",0},{"growFarBounds",0},{"initialStatusBounds",3},
	{"epsFlipping",0},{"numRegularisationSteps",1},{"epsRegularisation",0},{"numRefinementSteps",1},{"epsIterRef",0},{"epsLITests",0},{"epsNZCTests",0} };
enum { NOF = sizeof(OF)/sizeof(OF[0]) };
static double getO( const Q::Options& o, int i )
{
	#define G(a) if ( !strcmp( OF[i].nm,#a ) ) return (double)o.a;
	#define ALLO G(enableRamping) G(enableFarBounds) G(enableFlippingBounds) G(enableRegularisation) G(enableFullLITests) G(enableNZCTests) G(enableDriftCorrection) G(enableCholeskyRefactorisation) G(enableEqualities) G(terminationTolerance) G(boundTolerance) G(boundRelaxation) G(epsNum) G(epsDen) G(maxPrimalJump) G(maxDualJump) G(initialRamping) G(finalRamping) G(initialFarBounds) G(growFarBounds) G(initialStatusBounds) G(epsFlipping) G(numRegularisationSteps) G(epsRegularisation) G(numRefinementSteps) G(epsIterRef) G(epsLITests) G(epsNZCTests)
	ALLO
	#undef G
	return NAN;
}
template<class T> static void as( T& t, double v ) { t=(T)(int)v; }
static void as( double& t, double v ) { t=v; }
static void setO( Q::Options& o, int i, double v )
{
	#define G(a) if ( !strcmp( OF[i].nm,#a ) ) { as( o.a,v ); return; }
	ALLO
	#undef G
}
struct Opt { bool given; Q::Options o; int maxIter; double pl; Opt( ) : given( false ),maxIter( -1 ),pl( 0 ) { o.setToDefault( ); o.printLevel=Q::PL_LOW; } };
static octave_value optStruct( const Opt& p )
{
	octave_scalar_map m; m.setfield( "maxIter",(double)p.maxIter ); m.setfield( "maxCpuTime",-1.0 ); m.setfield( "printLevel",p.pl );
	for( int i=0; i<NOF; ++i ) m.setfield( OF[i].nm,getO( p.o,i ) );
	return octave_value( m );
}
static Opt optNo( int k )                        // 0 none, 1 default struct, 2 reliable, 3 MPC, 4 default with maxIter 1, 5 MPC with regularisation-free, maxIter 0
{
	Opt p; if ( k==0 ) return p; p.given=true;
	if ( k==2 ) p.o.setToReliable( ); if ( k==3 || k==5 ) p.o.setToMPC( ); if ( k==4 ) p.maxIter=1; if ( k==5 ) p.maxIter=0; p.o.printLevel=Q::PL_NONE; return p;
}

// ---------------------------------------------------------------- auxiliary inputs
struct Aux { int kind; double x0[3],wb[3],wc[2],R[9]; bool hx,hb,hc,hR; int ht; };   // kind 0 none, 1 x0 as vector, 2 struct
static Aux auxNo( int k )
{
	Aux a; memset( (void*)&a,0,sizeof(a) ); a.ht=-1; if ( k==0 ) return a; a.kind = k==1?1:2;
	static const double X[3]={0.5,1,-0.25},B[3]={-1,0,1},C[2]={1,0}; memcpy( a.x0,X,sizeof(X) ); memcpy( a.wb,B,sizeof(B) ); memcpy( a.wc,C,sizeof(C) );
	a.hx = k==1 || k==2 || k==5; a.hb = k==3 || k==5 || k==7; a.hc = k==3 || k==4 || k==5; if ( k==6 ) a.ht=2;
	if ( k==8 ) { a.hR=true; D d=data( 0 ); for( int j=0; j<3; ++j ) for( int i=0; i<=j; ++i ) { double s=d.H[i*3+j]; for( int l=0; l<i; ++l ) s-=a.R[l*3+i]*a.R[l*3+j]; a.R[i*3+j] = i==j ? sqrt( s ) : s/a.R[i*3+i]; } }
	return a;
}
enum { NAUX = 9 };
static octave_value auxVal( const Aux& a, int nC )
{
	if ( a.kind==1 ) return col( a.x0,N );
	octave_scalar_map m; octave_value e=octave_value( ::Matrix( ) );
	m.setfield( "hessianType",a.ht>=0 ? octave_value( (double)a.ht ) : e ); m.setfield( "x0",a.hx ? col( a.x0,N ) : e ); m.setfield( "guessedWorkingSetB",a.hb ? col( a.wb,N ) : e );
	m.setfield( "guessedWorkingSetC",a.hc && nC ? col( a.wc,nC ) : e ); m.setfield( "R",a.hR ? mat( a.R,N,N,0 ) : e ); return octave_value( m );
}

// ---------------------------------------------------------------- reference: C++ objects
struct Mir
{
	Q::QProblemB* b; Q::SQProblem* s; int nC; bool hasH; std::vector<Q::Matrix*> own; double handle;
	Mir( ) : b( 0 ),s( 0 ),nC( 0 ),hasH( false ),handle( 0 ) { }
	~Mir( ) { delete b; delete s; for( Q::Matrix* m : own ) delete m; }
	Q::QProblemB* any( ) { return b ? b : s; }
	Q::SymmetricMatrix* H( const double* p, int form )
	{
		if ( form==2 ) return 0; Q::SymmetricMatrix* r; hasH=true;
		if ( form==1 ) { Q::SymSparseMat* m = new Q::SymSparseMat( N,N,N,p ); m->createDiagInfo( ); r=m; own.push_back( m ); }
		else { double* c = new double[N*N]; memcpy( c,p,N*N*sizeof(double) ); Q::SymDenseMat* m = new Q::SymDenseMat( N,N,N,c ); m->doFreeMemory( ); r=m; own.push_back( m ); }
		return r;
	}
	Q::Matrix* A( const double* p, int form )
	{
		if ( !nC ) return 0; Q::Matrix* m;
		if ( form==1 ) m = new Q::SparseMatrix( nC,N,N,p ); else { double* c = new double[nC*N]; memcpy( c,p,nC*N*sizeof(double) ); m = new Q::DenseMatrix( nC,N,N,c ); m->doFreeMemory( ); }
		own.push_back( m ); return m;
	}
};
struct Out { bool ok; std::vector<std::vector<double> > v; };        // x, fval, flag, iter, lambda, wsB, wsC
static std::vector<double> vd( const double* p, int n ) { return std::vector<double>( p,p+n ); }
static void collect( Out& o, Q::QProblemB* q, Q::returnValue rv, int_t n, int nC )
{
	double x[N]={0},y[N+M]={0},w[N+M]={0}; q->getPrimalSolution( x ); if ( nC ) ((Q::QProblem*)q)->getDualSolution( y ); else q->getDualSolution( y );
	double wb[N]={0},wc[M]={0}; q->getWorkingSetBounds( wb ); if ( nC ) ((Q::QProblem*)q)->getWorkingSetConstraints( wc );
	double f=q->getObjVal( ),st=Q::getSimpleStatus( rv ),it=(double)n; std::vector<std::vector<double> > r={ vd( x,N ),vd( &f,1 ),vd( &st,1 ),vd( &it,1 ),vd( y,N+nC ),vd( wb,N ),vd( wc,nC ) };
	if ( o.v.empty( ) ) o.v=r; else for( size_t i=0; i<r.size( ); ++i ) o.v[i].insert( o.v[i].end( ),r[i].begin( ),r[i].end( ) );
}
static bool guess( const Aux& a, int nC, Q::Bounds& gb, Q::Constraints& gc )
{
	if ( a.kind!=2 ) return true;
	if ( a.hb ) for( int i=0; i<N; ++i ) { if ( a.wb[i]!=-1 && a.wb[i]!=0 && a.wb[i]!=1 ) return false; gb.setupBound( i,a.wb[i]<0?Q::ST_LOWER:a.wb[i]>0?Q::ST_UPPER:Q::ST_INACTIVE ); }
	if ( a.hc ) for( int i=0; i<nC; ++i ) { if ( a.wc[i]!=-1 && a.wc[i]!=0 && a.wc[i]!=1 ) return false; gc.setupConstraint( i,a.wc[i]<0?Q::ST_LOWER:a.wc[i]>0?Q::ST_UPPER:Q::ST_INACTIVE ); }
	return true;
}
static int_t limitOf( const Opt& p, int nC ) { return p.maxIter>=0 ? p.maxIter : 5*( N+nC ); }
static const double* pz( const double* p, bool empty ) { return empty?0:p; }
struct Call { int k,fH,fA,mask,opt,aux; };       // data, matrix forms, empty limits (1 lb 2 ub 4 lbA 8 ubA)
// init on a fresh mirror
static Out refInit( Mir& r, bool simple, int nC, const Call& c )
{
	Out o; o.ok=true; D d=data( c.k ); Opt p=optNo( c.opt ); Aux a=auxNo( c.aux ); r.nC=nC; Q::HessianType ht = a.ht>=0 ? (Q::HessianType)a.ht : Q::HST_UNKNOWN;
	Q::Bounds gb( N ); Q::Constraints gc( nC ); guess( a,nC,gb,gc ); int_t n=limitOf( p,nC ); double cpu=Q::INFTY; Q::returnValue rv; const double* x0=a.hx?a.x0:0; const double* R=a.hR?a.R:0;
	if ( simple ) { r.b = new Q::QProblemB( N,ht ); r.b->setOptions( p.o ); rv=r.b->init( r.H( d.H,c.fH ),d.g,pz( d.lb,c.mask&1 ),pz( d.ub,c.mask&2 ),n,&cpu,x0,0,a.hb?&gb:0,R ); }
	else { r.s = new Q::SQProblem( N,nC,ht ); r.s->setOptions( p.o ); rv=r.s->init( r.H( d.H,c.fH ),d.g,r.A( d.A,c.fA ),pz( d.lb,c.mask&1 ),pz( d.ub,c.mask&2 ),pz( d.lA,c.mask&4 ),pz( d.uA,c.mask&8 ),n,&cpu,x0,0,a.hb?&gb:0,a.hc&&nC?&gc:0,R ); }
	collect( o,r.any( ),rv,n,nC ); return o;
}
static Out refHot( Mir& r, const Call& c )
{
	Out o; o.ok=true; D d=data( c.k ); Opt p=optNo( c.opt ); int_t n=limitOf( p,r.nC ); double cpu=Q::INFTY; Q::returnValue rv; r.any( )->setOptions( p.o );
	if ( r.b ) rv=r.b->hotstart( d.g,pz( d.lb,c.mask&1 ),pz( d.ub,c.mask&2 ),n,&cpu ); else rv=((Q::QProblem*)r.s)->hotstart( d.g,pz( d.lb,c.mask&1 ),pz( d.ub,c.mask&2 ),pz( d.lA,c.mask&4 ),pz( d.uA,c.mask&8 ),n,&cpu );
	collect( o,r.any( ),rv,n,r.nC ); return o;
}
static Out refMat( Mir& r, const Call& c )
{
	Out o; o.ok=true; D d=data( c.k ); Opt p=optNo( c.opt ); int_t n=limitOf( p,r.nC ); double cpu=Q::INFTY; r.s->setOptions( p.o ); std::vector<Q::Matrix*> old; old.swap( r.own );
	Q::SymmetricMatrix* H=r.H( d.H,c.fH ); Q::Matrix* A=r.A( d.A,c.fA );
	Q::returnValue rv=r.s->hotstart( H,d.g,A,pz( d.lb,c.mask&1 ),pz( d.ub,c.mask&2 ),pz( d.lA,c.mask&4 ),pz( d.uA,c.mask&8 ),n,&cpu );
	for( Q::Matrix* m : old ) r.own.push_back( m );
	collect( o,r.s,rv,n,r.nC ); return o;
}
static Out refEqp( Mir& r, const Call& c, int nR, const Opt* p )
{
	Out o; D d=data( c.k ),e=data( ( c.k+1 )%NK ); if ( p ) r.s->setOptions( p->o ); double g[2*N],lb[2*N],ub[2*N],lA[2*M],uA[2*M],x[2*N]={0},y[2*( N+M )]={0},wb[N]={0},wc[M]={0}; int nC=r.nC;
	memcpy( g,d.g,sizeof(d.g) ); memcpy( g+N,e.g,sizeof(d.g) ); memcpy( lb,d.lb,sizeof(d.lb) ); memcpy( lb+N,e.lb,sizeof(d.lb) ); memcpy( ub,d.ub,sizeof(d.ub) ); memcpy( ub+N,e.ub,sizeof(d.ub) );
	for( int i=0; i<nC; ++i ) { lA[i]=d.lA[i]; lA[nC+i]=e.lA[i]; uA[i]=d.uA[i]; uA[nC+i]=e.uA[i]; }
	r.s->getWorkingSetBounds( wb ); r.s->getWorkingSetConstraints( wc );
	Q::returnValue rv=r.s->solveCurrentEQP( nR,g,pz( lb,c.mask&1 ),pz( ub,c.mask&2 ),pz( lA,c.mask&4 ),pz( uA,c.mask&8 ),x,y ); o.ok = rv==Q::SUCCESSFUL_RETURN;
	o.v={ vd( x,N*nR ),vd( y,( N+nC )*nR ),vd( wb,N ),vd( wc,nC ) }; return o;
}
// ---------------------------------------------------------------- comparison
static bool same( const std::vector<double>& a, const octave_value& v, int r, int c, std::string& why, const char* nm )
{
	::Matrix m; try { m=v.matrix_value( ); } catch( ... ) { why=std::string( nm )+" is not a matrix"; ip->recover_from_exception( ); return false; }
	if ( m.numel( )==0 && r*c==0 ) return true;
	if ( m.rows( )!=r || m.cols( )!=c ) { why=mc::fmt( "%s has size [%d,%d] instead of [%d,%d]",nm,(int)m.rows( ),(int)m.cols( ),r,c ); return false; }
	for( int j=0; j<c; ++j ) for( int i=0; i<r; ++i ) { double u=a[j*r+i],w=m( i,j ); if ( u!=w && !( u!=u && w!=w ) ) { why=mc::fmt( "%s(%d,%d) is %.17g, C++ gives %.17g",nm,i+1,j+1,w,u ); return false; } }
	return true;
}
static bool cmp( const Out& o, const octave_value_list& out, int nout, int nC, int nP, bool withHandle, std::string& why )
{
	int at=withHandle; static const char* NM[5]={"x","fval","exitflag","iter","lambda"};
	if ( out.length( )<nout ) { why=mc::fmt( "%d outputs instead of %d",(int)out.length( ),nout ); return false; }
	for( int k=0; k<5; ++k,++at ) { if ( k>0 && at>=nout ) return true; int r = k==0?N:k==4?N+nC:1; if ( !same( o.v[k],out( at ),r,nP,why,NM[k] ) ) return false; }
	if ( at<nout )
	{
		octave_scalar_map s; try { s=out( at ).scalar_map_value( ); } catch( ... ) { why="auxOutput is no struct"; ip->recover_from_exception( ); return false; }
		if ( !s.isfield( "workingSetB" ) || !s.isfield( "workingSetC" ) || !s.isfield( "cpuTime" ) ) { why="auxOutput lacks a field"; return false; }
		if ( !same( o.v[5],s.contents( "workingSetB" ),N,nP,why,"workingSetB" ) || !same( o.v[6],s.contents( "workingSetC" ),nC,nP,why,"workingSetC" ) ) return false;
		double t=s.contents( "cpuTime" ).matrix_value( )( 0,0 ); if ( !( t>=0 ) ) { why=mc::fmt( "cpuTime is %g",t ); return false; }
	}
	return true;
}
static std::string show( const Out& o ) { return mc::fmt( "%g/%g/%g x=%.4g,%.4g,%.4g ",o.v[2][0],o.v[3][0],o.v[1][0],o.v[0][0],o.v[0][1],o.v[0][2] ); }
// inputs must come out as they went in
struct Keep
{
	std::vector<octave_value> v; std::vector<std::vector<double> > c;
	static std::vector<double> bits( const octave_value& o ) { std::vector<double> r; if ( o.is_double_type( ) && o.is_matrix_type( ) ) { ::Matrix m=o.matrix_value( ); for( octave_idx_type i=0; i<m.numel( ); ++i ) r.push_back( m( i ) ); } return r; }
	explicit Keep( const octave_value_list& l ) { for( int i=0; i<l.length( ); ++i ) { v.push_back( l( i ) ); c.push_back( bits( l( i ) ) ); } }
	int changed( ) const { for( size_t i=0; i<v.size( ); ++i ) { std::vector<double> b=bits( v[i] ); if ( b.size( )!=c[i].size( ) || ( b.size( ) && memcmp( b.data( ),c[i].data( ),b.size( )*8 ) ) ) return (int)i+1; } return 0; }
};
// ---------------------------------------------------------------- argument lists
static std::string V( int variant, const char* f ) { return std::string( variant?"m":"o" )+f; }
static void limits( octave_value_list& in, const D& d, int mask, int nC, bool constr )
{
	in.append( vecOr( d.lb,N,mask&1 ) ); in.append( vecOr( d.ub,N,mask&2 ) ); if ( constr ) { in.append( vecOr( d.lA,nC,( mask&4 ) || !nC ) ); in.append( vecOr( d.uA,nC,( mask&8 ) || !nC ) ); }
}
static void tail( octave_value_list& in, const Call& c, int nC, bool aux )
{
	if ( c.opt || ( aux && c.aux ) ) in.append( c.opt ? optStruct( optNo( c.opt ) ) : octave_value( ::Matrix( ) ) );
	if ( aux && c.aux ) in.append( auxVal( auxNo( c.aux ),nC ) );
}
static octave_value_list argI( bool simple, int nC, const Call& c )
{
	D d=data( c.k ); octave_value_list in; in.append( octave_value( c.k&1?"I":"i" ) ); in.append( mat( d.H,N,N,c.fH ) ); in.append( col( d.g,N ) ); if ( !simple ) in.append( nC ? mat( d.A,nC,N,c.fA ) : octave_value( ::Matrix( 0,c.fA?N:0 ) ) );
	limits( in,d,c.mask,nC,!simple ); tail( in,c,nC,true ); return in;
}
static octave_value_list argH( double h, bool simple, int nC, const Call& c ) { D d=data( c.k ); octave_value_list in; in.append( octave_value( c.k&1?"H":"h" ) ); in.append( octave_value( h ) ); in.append( col( d.g,N ) ); limits( in,d,c.mask,nC,!simple ); tail( in,c,nC,false ); return in; }
static octave_value_list argM( double h, int nC, const Call& c ) { D d=data( c.k ); octave_value_list in; in.append( octave_value( c.k&1?"M":"m" ) ); in.append( octave_value( h ) ); in.append( mat( d.H,N,N,c.fH ) ); in.append( col( d.g,N ) ); in.append( nC ? mat( d.A,nC,N,c.fA ) : octave_value( ::Matrix( ) ) ); limits( in,d,c.mask,nC,true ); tail( in,c,nC,false ); return in; }
static octave_value two( const double* a, const double* b, int n, int nR, bool empty ) { if ( empty || !n ) return octave_value( ::Matrix( ) ); ::Matrix m( n,nR ); for( int i=0; i<n; ++i ) { m( i,0 )=a[i]; if ( nR>1 ) m( i,1 )=b[i]; } return octave_value( m ); }
static octave_value_list argE( double h, int nC, const Call& c, int nR ) { D d=data( c.k ),e=data( ( c.k+1 )%NK ); octave_value_list in; in.append( octave_value( c.k&1?"E":"e" ) ); in.append( octave_value( h ) ); in.append( two( d.g,e.g,N,nR,false ) ); in.append( two( d.lb,e.lb,N,nR,c.mask&1 ) ); in.append( two( d.ub,e.ub,N,nR,c.mask&2 ) ); in.append( two( d.lA,e.lA,nC,nR,c.mask&4 ) ); in.append( two( d.uA,e.uA,nC,nR,c.mask&8 ) ); tail( in,c,nC,false ); return in; }

// ---------------------------------------------------------------- sequences
struct Slot { Mir* r; double h; };
struct World
{
	int var; Slot s[2]; std::string why,trace; double gone;
	explicit World( int v ) : var( v ),gone( 0 ) { s[0].r=s[1].r=0; s[0].h=s[1].h=0; }
	std::string f( ) const { return V( var,"seq" ); }
	bool err( const octave_value_list& in, int nout, const char* what ) { octave_value_list out; if ( call( f( ),in,nout,out ) ) { why=std::string( what )+" accepted"; return false; } trace+="err "; return true; }
	bool init( int k, bool simple, int nC, const Call& c, int nout = 7 )
	{
		drop( k ); octave_value_list in=argI( simple,nC,c ),out; Keep kp( in ); if ( !call( f( ),in,nout,out ) ) { why="init raised: "+lastErr; return false; }
		if ( int a=kp.changed( ) ) { why=mc::fmt( "init changed its argument %d",a ); return false; }
		s[k].r = new Mir; Out o=refInit( *s[k].r,simple && nC==0,nC,c ); double h=out( 0 ).matrix_value( )( 0,0 );
		if ( !( h>0 ) || ( s[1-k].r && s[1-k].h==h ) ) { why=mc::fmt( "handle %g is invalid or in use",h ); return false; }
		s[k].h=h; trace+=show( o ); return cmp( o,out,nout,nC,1,true,why );
	}
	bool hot( int k, const Call& c, bool simpleForm, int nout = 6 )
	{
		Mir* r=s[k].r; double h = r ? s[k].h : gone; bool ok = r && ( r->b!=0 )==simpleForm; octave_value_list in=argH( h,simpleForm,r?r->nC:M,c ),out;
		if ( !ok ) return err( in,nout,"hotstart of the wrong kind or with an unknown handle" );
		Keep kp( in ); if ( !call( f( ),in,nout,out ) ) { why="hotstart raised: "+lastErr; return false; } if ( int a=kp.changed( ) ) { why=mc::fmt( "hotstart changed its argument %d",a ); return false; }
		Out o=refHot( *r,c ); trace+=show( o ); return cmp( o,out,nout,r->nC,1,false,why );
	}
	bool change( int k, const Call& c, int nout = 6 )
	{
		Mir* r=s[k].r; double h = r ? s[k].h : gone; octave_value_list in=argM( h,r?r->nC:M,c ),out; if ( !r || r->b ) return err( in,nout,"change of matrices without a constrained instance" );
		Q::QProblemStatus st=r->s->getStatus( ); bool refused = ( c.fH==2 && r->hasH ) || st==Q::QPS_NOTINITIALISED || st==Q::QPS_PREPARINGAUXILIARYQP || st==Q::QPS_PERFORMINGHOMOTOPY;
		if ( refused ) return err( in,nout,"change of matrices the C++ class refuses" );
		Keep kp( in ); if ( !call( f( ),in,nout,out ) ) { why="change of matrices raised: "+lastErr; return false; } if ( int a=kp.changed( ) ) { why=mc::fmt( "change of matrices changed its argument %d",a ); return false; }
		Out o=refMat( *r,c ); trace+=show( o ); return cmp( o,out,nout,r->nC,1,false,why );
	}
	bool eqp( int k, const Call& c, int nR, int nout )
	{
		Mir* r=s[k].r; double h = r ? s[k].h : gone; octave_value_list in=argE( h,r?r->nC:M,c,nR ),out; if ( !r || r->b ) return err( in,nout,"equality-constrained solve without a constrained instance" );
		Opt p=optNo( c.opt ); Keep kp( in ); bool got=call( f( ),in,nout,out ); if ( int a=kp.changed( ) ) { why=mc::fmt( "equality-constrained solve changed its argument %d",a ); return false; }
		Out o=refEqp( *r,c,nR,c.opt?&p:0 ); if ( got!=o.ok ) { why=got?"equality-constrained solve succeeded, C++ refuses":"equality-constrained solve raised: "+lastErr; return false; }
		if ( !got ) { trace+="eqp- "; return true; } trace+=mc::fmt( "eqp%d ",nR ); int rows[4]={N,N+r->nC,N,r->nC}; static const char* NM[4]={"x","lambda","workingSetB","workingSetC"};
		for( int i=0; i<nout; ++i ) if ( i<2 ? !same( o.v[i],out( i ),rows[i],nR,why,NM[i] ) : !sameCol( o.v[i],out( i ),rows[i],nR,NM[i] ) ) return false;
		return true;
	}
	bool sameCol( const std::vector<double>& a, const octave_value& v, int r, int c, const char* nm ) { if ( !r ) return true; ::Matrix m=v.matrix_value( ); if ( m.rows( )!=r || m.cols( )!=c ) { why=mc::fmt( "%s has size [%d,%d]",nm,(int)m.rows( ),(int)m.cols( ) ); return false; } ::Matrix f( r,1 ); for( int i=0; i<r; ++i ) f( i,0 )=m( i,0 ); return same( a,octave_value( f ),r,1,why,nm ); }
	bool drop( int k )
	{
		if ( !s[k].r ) return true; octave_value_list in,out; in.append( octave_value( "c" ) ); in.append( octave_value( s[k].h ) ); bool ok=call( f( ),in,0,out ); gone=s[k].h; delete s[k].r; s[k].r=0;
		if ( !ok ) why="cleanup raised: "+lastErr; return ok;
	}
	~World( ) { std::string w=why; drop( 0 ); drop( 1 ); }
};
// operations acting on slot 0 (the second instance lives beside it)
enum { NOPS = 27 };
static bool op( World& w, int o, std::string& nm )
{
	bool simple = w.s[0].r && w.s[0].r->b; static const Call C[] = {
		{0,0,0,0,0,0},{1,0,0,0,1,0},{2,0,0,0,0,0},{3,0,0,0,3,0},{4,0,0,0,0,0},{5,0,0,0,2,0},{0,0,0,0,4,0},{1,0,0,3,0,0},{0,0,0,12,0,0},   // 0-8 hotstart
		{1,0,0,0,0,0},{3,1,1,0,3,0},{0,0,1,0,0,0},{5,2,0,0,0,0},{2,1,0,0,1,0},{1,1,1,0,4,0},{4,0,0,8,0,0},                                    // 9-15 matrices
		{0,0,0,0,0,0},{1,0,0,0,1,0},{3,0,0,15,0,0},{0,0,0,0,0,0} };                                                                          // 16-19 equality-constrained
	nm=mc::fmt( "%d ",o );
	if ( o<9 ) return w.hot( 0,C[o],simple,6-( o%3==2 ) );
	if ( o<16 ) return w.change( 0,C[o],6 );
	if ( o<20 ) return w.eqp( 0,C[o],o==17 || o==19 ? 2 : 1,o==19 ? 1 : o==18 ? 2 : 4 );
	switch( o )
	{
		case 20: { bool had=w.s[0].r!=0; bool ok=w.drop( 0 ); if ( !had ) w.trace+="c "; return ok; }
		case 21: return w.hot( 1,C[1],w.s[1].r->b!=0 );
		case 22: return w.s[1].r->b ? w.hot( 1,C[3],true ) : w.change( 1,C[10] );
		case 23: return w.hot( 0,C[0],!simple );                                     // the other call form
		case 24: { octave_value_list in=argH( 987654,simple,simple?0:M,C[0] ); return w.err( in,6,"unknown handle" ); }
		case 25: { octave_value_list in=argM( w.s[0].r?w.s[0].h:w.gone,w.s[0].r?w.s[0].r->nC:M,C[10] ); ::Matrix z( N,1,NAN ); in( 3 )=octave_value( z ); return w.err( in,6,"change of matrices with NaN" ); }
		default: return w.init( 0,true,0,C[0] );
	}
}
struct Init { const char* nm; bool simple; int nC; Call c; };
static const Init INI[] = { {"constrained",false,2,{0,0,0,0,0,0}}, {"constrained, sparse, MPC",false,2,{3,1,1,0,3,0}}, {"simply bounded",true,0,{1,0,0,0,0,0}}, {"constrained, infeasible",false,2,{2,0,0,0,0,0}}, {"LP without Hessian",false,2,{5,2,1,0,1,0}},
	{"simply bounded, sparse, MPC",true,0,{3,1,0,0,3,0}}, {"constrained form without constraints",false,0,{0,0,0,0,0,0}}, {"one constraint, guess",false,1,{0,0,0,0,0,5}}, {"unbounded",false,2,{4,0,0,0,0,0}}, {"interrupted",false,2,{1,0,0,0,5,0}}, {"simply bounded, x0",true,0,{3,0,0,0,2,1}}, {"constrained, semidefinite, default",false,2,{3,0,0,0,1,3}} };
enum { NINI = sizeof(INI)/sizeof(INI[0]) };
static void seq( int var, int dep, mc::u64 i )
{
	boot( ); mc::Dec d( i ); const Init& I=INI[d( NINI )]; World w( var ); std::string ks=mc::fmt( "%s: %s: ",var?"matlab":"octave",I.nm ); std::vector<int> o; int sum=0; for( int k=0; k<dep; ++k ) { o.push_back( k==2 && !mc::thorough ? 3*d( NOPS/3 )+sum%3 : d( NOPS ) ); sum+=o.back( ); }
	for( int k : o ) ks+=mc::fmt( "%d ",k ); mc::key( ks ); mc::evaluation( );
	bool ok=w.init( 1,( i&1 )!=0,( i&1 )?0:2,Call{ 1,0,0,0,0,0 } ) && w.init( 0,I.simple,I.nC,I.c ); std::string at="init";
	for( size_t k=0; ok && k<o.size( ); ++k ) { std::string nm; ok=op( w,o[k],nm ); at=mc::fmt( "call %d",(int)k+1 ); }
	if ( !ok ) return mc::fail( "sequence",at+": "+w.why );
	mc::traceValidated( ); mc::outcome( w.trace ); mc::state( mc::hashStr( w.trace ) ); mc::sample( ks+w.trace );
}
// ---------------------------------------------------------------- one-shot calls
static void shot( int var, bool thin, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int k=d( NK ),form=d( 4 ),fH=d( 3 ),mask=d( 16 ),nP=d( thin?2:3 )+1,opt=mc::thorough?d( 6 ):2*d( 3 )+( k+mask+nP )%2,aux=thin?2*d( 4 )+1:d( NAUX ); int nC = form==3?0:form; bool simple = form==3; if ( simple && mask>3 ) return; int fA=( k+mask )&1; int nout=1+(int)( ( i/7 )%6 ); if ( form==0 ) nC=0;
	// form 0: constrained call with an empty matrix, 1: one constraint, 2: two constraints, 3: simply bounded call
	std::string ks=mc::fmt( "%s: qpOASES data %d form %d H%d A%d empty %d columns %d options %d aux %d outputs %d",var?"matlab":"octave",k,form,fH,fA,mask,nP,opt,aux,nout ); mc::key( ks ); mc::evaluation( );
	if ( aux==8 && k!=0 && k!=2 ) return; Call c={ k,fH,fA,mask,opt,aux }; D q=data( k ); octave_value_list in,out; in.append( mat( q.H,N,N,fH ) );
	std::vector<D> s; for( int p=0; p<nP; ++p ) s.push_back( data( ( k+p )%NK ) );
	#define COLS(f,n,e) { ::Matrix m( n,nP ); for( int p=0; p<nP; ++p ) for( int r=0; r<n; ++r ) m( r,p )=s[p].f[r]; in.append( ( e ) || !( n ) ? octave_value( ::Matrix( ) ) : octave_value( m ) ); }
	COLS( g,N,false ) if ( !simple ) in.append( nC ? mat( q.A,nC,N,fA ) : octave_value( ::Matrix( ) ) ); COLS( lb,N,mask&1 ) COLS( ub,N,mask&2 ) if ( !simple ) { COLS( lA,nC,mask&4 ) COLS( uA,nC,mask&8 ) }
	tail( in,c,nC,true ); Keep kp( in ); Mir r; r.nC=nC; Opt po=optNo( opt ); Aux a=auxNo( aux ); Q::HessianType ht = a.ht>=0 ? (Q::HessianType)a.ht : Q::HST_UNKNOWN; Q::Bounds gb( N ); Q::Constraints gc( nC ); guess( a,nC,gb,gc );
	if ( !call( V( var,"qp" ),in,nout,out ) ) return mc::fail( "one-shot","raised: "+lastErr );
	if ( int x=kp.changed( ) ) return mc::fail( "one-shot",mc::fmt( "argument %d was changed",x ) );
	Out o; o.ok=true; Q::QProblem* P=0; if ( nC ) { P = new Q::QProblem( N,nC,ht ); P->setOptions( po.o ); } else { r.b = new Q::QProblemB( N,ht ); r.b->setOptions( po.o ); } Q::SymmetricMatrix* H=r.H( q.H,fH ); Q::Matrix* A=r.A( q.A,fA );
	for( int p=0; p<nP; ++p )
	{
		int_t n=limitOf( po,nC ); double cpu=Q::INFTY; Q::returnValue rv; const D& t=s[p]; const double *lb=pz( t.lb,mask&1 ),*ub=pz( t.ub,mask&2 ),*lA=pz( t.lA,mask&4 ),*uA=pz( t.uA,mask&8 );
		if ( nC ) rv = p ? P->hotstart( t.g,lb,ub,lA,uA,n,&cpu ) : P->init( H,t.g,A,lb,ub,lA,uA,n,&cpu,a.hx?a.x0:0,0,a.hb?&gb:0,a.hc?&gc:0,a.hR?a.R:0 );
		else rv = p ? r.b->hotstart( t.g,lb,ub,n,&cpu ) : r.b->init( H,t.g,lb,ub,n,&cpu,a.hx?a.x0:0,0,a.hb?&gb:0,a.hR?a.R:0 );
		collect( o,nC?(Q::QProblemB*)P:r.b,rv,n,nC );
	}
	delete P; std::string why; if ( !cmp( o,out,nout,nC,nP,false,why ) ) return mc::fail( "one-shot",why );
	mc::traceValidated( ); std::string t=show( o ); for( int p=0; p<nP; ++p ) t+=mc::fmt( "%g %g ",o.v[2][p],o.v[0][p*N] ); mc::outcome( t ); mc::state( mc::hashStr( t ) ); mc::sample( ks+t );
}
// ---------------------------------------------------------------- bad arguments
enum { NBAD = 14 };
static const char* BAD[NBAD] = { "NaN","Inf","a row too many","a row too few","a column too many","transposed","single precision","int32","logical","char","sparse","cell","struct","empty" };
// role: 0 command, 1 handle, 2 H, 3 g, 4 A, 5 limit of bounds, 6 limit of constraints.  Returns whether the modified argument is valid (2: undefined, skip)
static int spoil( octave_value& v, int role, int bad, bool oneShot )
{
	::Matrix m; if ( role>=2 ) { if ( v.issparse( ) ) m=v.sparse_matrix_value( ).matrix_value( ); else m=v.matrix_value( ); }
	if ( role==0 ) { switch( bad ) { case 0: v=octave_value( 1.0 ); return 0; case 9: v=octave_value( "x" ); return 0; case 11: v=octave_value( Cell( 1,1 ) ); return 0; case 13: v=octave_value( "" ); return 0; case 2: v=octave_value( "zz" ); return 0; default: return 2; } }
	if ( role==1 ) { switch( bad ) { case 2: v=octave_value( ::Matrix( 2,1,1.0 ) ); return 0; case 7: v=octave_value( octave_int32( 1 ) ); return 0; case 9: v=octave_value( "a" ); return 0; case 11: v=octave_value( Cell( 1,1 ) ); return 0; case 13: v=octave_value( ::Matrix( ) ); return 0; case 5: v=octave_value( 54321.0 ); return 0; case 6: v=octave_value( -7.0 ); return 0; case 3: v=octave_value( 0.0 ); return 0; default: return 2; } }
	int r=m.rows( ),c=m.cols( );
	switch( bad )
	{
		case 0: m( m.numel( )-1 )=NAN; v=octave_value( m ); return 0;
		case 1: if ( role>=5 ) return 2; m( m.numel( )-1 )=INF; v=octave_value( m ); return 0;
		case 2: if ( role==4 ) return 2; { ::Matrix n( r+1,c,0.0 ); for( int i=0; i<r; ++i ) for( int j=0; j<c; ++j ) n( i,j )=m( i,j ); v=octave_value( n ); } return 0;
		case 3: if ( role==4 || r<2 ) return 2; v=octave_value( m.extract( 0,0,r-2,c-1 ) ); return 0;
		case 4: { ::Matrix n( r,c+1,0.0 ); for( int i=0; i<r; ++i ) for( int j=0; j<c; ++j ) n( i,j )=m( i,j ); v=octave_value( n ); } return 0;
		case 5: if ( r==c ) return 2; v=octave_value( m.transpose( ) ); return 0;
		case 6: v=octave_value( FloatMatrix( m ) ); return 0;
		case 7: { int32NDArray n( dim_vector( r,c ) ); for( int i=0; i<m.numel( ); ++i ) n( i )=octave_int32( 1 ); v=octave_value( n ); } return 0;
		case 8: { boolMatrix n( r,c,true ); v=octave_value( n ); } return 0;
		case 9: { charMatrix n( r,c,'a' ); v=octave_value( n,'\'' ); } return 0;
		case 10: if ( role==2 || role==4 ) return 2; v=octave_value( ::SparseMatrix( m ) ); return 0;
		case 11: v=octave_value( Cell( r,c ) ); return 0;
		case 12: { octave_scalar_map s; s.setfield( "a",1.0 ); v=octave_value( s ); } return 0;
		default: if ( role==2 || role>=5 || ( role==4 && oneShot ) ) return 2; v=octave_value( role==4 ? ::Matrix( r,0 ) : ::Matrix( ) ); return 0;
	}
}
// call forms: roles of their arguments
struct Form { const char* nm; int roles[9]; int n; int nout; };
static const Form FORM[] = { {"i constrained",{0,2,3,4,5,5,6,6},8,7}, {"i bounds",{0,2,3,5,5},5,7}, {"h constrained",{0,1,3,5,5,6,6},7,6}, {"h bounds",{0,1,3,5,5},5,6}, {"m",{0,1,2,3,4,5,5,6,6},9,6}, {"e",{0,1,3,5,5,6,6},7,4}, {"qpOASES constrained",{2,3,4,5,5,6,6},7,6}, {"qpOASES bounds",{2,3,5,5},4,6} };
static void bad( int var, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int form=d( 8 ),arg=d( 9 ),b=d( NBAD ),sparse=d( 2 ),extra=d( 3 ); const Form& F=FORM[form]; if ( arg>=F.n ) return; int role=F.roles[arg];
	std::string ks=mc::fmt( "%s: %s, argument %d: %s, %s data%s",var?"matlab":"octave",F.nm,arg+1,BAD[b],sparse?"sparse":"dense",extra==1?", one output":extra==2?", with options":"" ); mc::key( ks );
	World w( var ); Call c={ 0,sparse,sparse,0,extra==2?1:0,0 }; bool bnd = form==1 || form==3 || form==7;
	if ( !w.init( 0,form==3,form==3?0:2,Call{ 1,0,0,0,0,0 } ) || !w.init( 1,form!=3,form!=3?0:2,Call{ 0,0,0,0,0,0 } ) ) return mc::fail( "bad arguments","set-up: "+w.why );
	octave_value_list in; double h=w.s[0].h;
	switch( form ) { case 0: in=argI( false,2,c ); break; case 1: in=argI( true,0,c ); break; case 2: in=argH( h,false,2,c ); break; case 3: in=argH( h,true,0,c ); break; case 4: in=argM( h,2,c ); break; case 5: in=argE( h,2,c,1 ); break; default: { octave_value_list t=argI( form==7,form==7?0:2,c ); for( int k=1; k<t.length( ); ++k ) in.append( t( k ) ); } }
	if ( form==6 && ( arg==3 || arg==4 ) && b==12 ) return;        // struct in fifth place etc.: refused all the same, but not as data
	octave_value v=in( arg ); int valid=spoil( v,role,b,form>=6 ); if ( valid==2 ) return; in( arg )=v; mc::evaluation( );
	octave_value_list out; int nout = extra==1?1:F.nout; Keep kp( in ); bool got=call( form>=6?V( var,"qp" ):w.f( ),in,nout,out );
	if ( got && !valid ) { mc::fail( "bad arguments","accepted" ); if ( form<2 ) { w.gone=out( 0 ).matrix_value( )( 0,0 ); octave_value_list q,z; q.append( octave_value( "c" ) ); q.append( octave_value( w.gone ) ); call( w.f( ),q,0,z ); } return; }
	if ( int x=kp.changed( ) ) return mc::fail( "bad arguments",mc::fmt( "argument %d was changed",x ) );
	// the instances are as before
	bool ok=w.hot( 0,Call{ 0,0,0,0,0,0 },bnd && form==3 ) && w.hot( 1,Call{ 3,0,0,0,1,0 },form!=3 ); if ( !ok ) return mc::fail( "after bad arguments",w.why );
	if ( form!=3 && !w.change( 0,Call{ 3,1,0,0,0,0 } ) ) return mc::fail( "after bad arguments",w.why );
	mc::traceValidated( ); mc::outcome( ks+lastErr+w.trace ); mc::state( mc::hashStr( ks ) );
}
// numbers of arguments and outputs
static void counts( int var, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int form=d( 9 ),nin=d( 13 ),nout=d( 9 ); std::string ks=mc::fmt( "%s: form %d with %d arguments, %d outputs",var?"matlab":"octave",form,nin,nout ); mc::key( ks );
	World w( var ); if ( !w.init( 0,form==3,form==3?0:2,Call{ 1,0,0,0,0,0 } ) ) return mc::fail( "counts","set-up: "+w.why );
	Call c={ 0,0,0,0,0,0 }; octave_value_list in; double h=w.s[0].h; int full;
	switch( form ) { case 0: in=argI( false,2,c ); full=8; break; case 1: in=argI( true,0,c ); full=5; break; case 2: in=argH( h,false,2,c ); full=7; break; case 3: in=argH( h,true,0,c ); full=5; break; case 4: in=argM( h,2,c ); full=9; break; case 5: in=argE( h,2,c,1 ); full=7; break; case 8: in.append( octave_value( "c" ) ); in.append( octave_value( h ) ); full=2; break; default: { octave_value_list t=argI( form==7,form==7?0:2,c ); for( int k=1; k<t.length( ); ++k ) in.append( t( k ) ); full=form==7?4:7; } }
	static const int MAXOUT[9]={7,7,6,6,6,4,6,6,0}; int extra = form==0||form==1||form==6||form==7 ? 2 : form==8 ? 0 : 1; octave_value_list a; for( int k=0; k<nin; ++k ) a.append( k<full ? in( k ) : octave_value( ::Matrix( ) ) );
	if ( nin<full && ( ( form==0 && nin>=5 ) || ( form==2 && nin>=5 ) || ( form==6 && nin>=4 ) ) ) return;      // another documented form
	bool valid = nin>=full && nin<=full+extra && nout<=MAXOUT[form] && ( nout>=1 || form==8 );
	if ( nin>full+extra && ( form==1 || form==3 || form==7 ) && nin<=( form==1?10:form==3?8:9 ) ) return;      // ambiguous with the constrained form
	if ( nout==0 ) { if ( form!=8 ) return; }                           // Octave passes nargout=0 as zero outputs; covered by the statement form below
	mc::evaluation( ); octave_value_list out; bool got=call( form==6||form==7?V( var,"qp" ):w.f( ),a,nout,out );
	if ( form==5 && !got && lastErr.find( "current EQP (code" )!=std::string::npos ) got=valid;                        // the solver refuses, as in C++
	if ( got!=valid ) { mc::fail( "counts",got?"accepted":"raised: "+lastErr ); return; }
	if ( form==8 && got ) { delete w.s[0].r; w.s[0].r=0; }
	if ( got && form<2 ) { octave_value_list q,z; q.append( octave_value( "c" ) ); q.append( out( 0 ) ); call( w.f( ),q,0,z ); }
	if ( !got && !w.hot( 0,c,form==3 ) ) return mc::fail( "after wrong counts",w.why );
	mc::traceValidated( ); mc::outcome( ks+lastErr ); mc::state( mc::hashStr( ks ) );
}
// ---------------------------------------------------------------- options
static const int NVAL=4;
static double optVal( int f, int v, double def ) { switch( OF[f].kind ) { case 2: return 1-def; case 1: return v; case 3: return v<3?v-1:1; default: return v==0?def*3+1e-3:v==1?def/7:v==2?1.0/3.0:def*1e4; } }
static void oneOption( int var, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int f=d( NOF ),v=d( NVAL ),preset=d( 3 )+1,k=d( NK ),k2=d( NK ); Opt p=optNo( preset ); double val=optVal( f,v,getO( p.o,f ) ); setO( p.o,f,val ); if ( OF[f].kind ) val=getO( p.o,f );
	std::string ks=mc::fmt( "%s: option %s=%g preset %d data %d,%d",var?"matlab":"octave",OF[f].nm,val,preset,k,k2 ); mc::key( ks ); mc::evaluation( );
	// the struct is produced by the option function of the interface from the preset and one name/value pair
	octave_value_list in,out; static const char* PR[4]={"","default","reliable","MPC"}; in.append( octave_value( PR[preset] ) ); in.append( octave_value( OF[f].nm ) ); in.append( octave_value( val ) ); in.append( octave_value( "printLevel" ) ); in.append( octave_value( 0.0 ) );
	if ( !call( V( var,"options" ),in,1,out ) ) return mc::fail( "options function","raised: "+lastErr );
	octave_value st=out( 0 ); octave_scalar_map m=st.scalar_map_value( );
	for( int j=0; j<NOF; ++j ) { if ( !m.isfield( OF[j].nm ) ) return mc::fail( "options function",std::string( "no field " )+OF[j].nm ); double x=m.contents( OF[j].nm ).double_value( ),want=getO( p.o,j ); if ( j==f ? x!=want : fabs( x-want )>0.05*fabs( want ) ) return mc::fail( "options function",mc::fmt( "%s is %.17g, C++ has %.17g",OF[j].nm,x,want ) ); setO( p.o,j,x ); }
	// and reaches the solver
	World w( var ); D q=data( k ),t=data( k2 ); p.o.printLevel=Q::PL_NONE; octave_value_list a=argI( false,2,Call{ k,0,0,0,0,0 } ); a.append( st ); if ( !call( w.f( ),a,7,out ) ) return mc::fail( "options","init raised: "+lastErr );
	Mir* r = new Mir; r->nC=2; w.s[0].r=r; w.s[0].h=out( 0 ).matrix_value( )( 0,0 ); r->s = new Q::SQProblem( N,2 ); r->s->setOptions( p.o ); int_t n=5*( N+2 ); double cpu=Q::INFTY; Q::returnValue rv=r->s->init( r->H( q.H,0 ),q.g,r->A( q.A,0 ),q.lb,q.ub,q.lA,q.uA,n,&cpu ); Out o; collect( o,r->s,rv,n,2 ); std::string why;
	if ( !cmp( o,out,7,2,1,true,why ) ) return mc::fail( "options","init: "+why );
	octave_value_list b=argH( w.s[0].h,false,2,Call{ k2,0,0,0,0,0 } ); b.append( st ); if ( !call( w.f( ),b,6,out ) ) return mc::fail( "options","hotstart raised: "+lastErr );
	r->s->setOptions( p.o ); n=5*( N+2 ); cpu=Q::INFTY; rv=((Q::QProblem*)r->s)->hotstart( t.g,t.lb,t.ub,t.lA,t.uA,n,&cpu ); Out o2; collect( o2,r->s,rv,n,2 ); if ( !cmp( o2,out,6,2,1,false,why ) ) return mc::fail( "options","hotstart: "+why );
	mc::traceValidated( ); mc::outcome( show( o )+show( o2 ) ); mc::state( mc::hashStr( ks ) );
}
// options and auxiliary inputs of other types, missing or unknown fields
static void oddStruct( int var, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int f=d( NOF+3 ),how=d( 7 ),form=d( 4 ); const char* nm = f<NOF?OF[f].nm:f==NOF?"maxIter":f==NOF+1?"maxCpuTime":"printLevel"; static const char* HOW[7]={"missing","empty","a vector","int32","logical","char","single"};
	std::string ks=mc::fmt( "%s: option %s %s, form %d",var?"matlab":"octave",nm,HOW[how],form ); mc::key( ks ); mc::evaluation( );
	Opt p=optNo( 1 ); octave_scalar_map m=optStruct( p ).scalar_map_value( ); Call c={ 0,0,0,0,0,0 };
	switch( how ) { case 0: m.rmfield( nm ); break; case 1: m.setfield( nm,octave_value( ::Matrix( ) ) ); break; case 2: m.setfield( nm,octave_value( ::Matrix( 2,1,1.0 ) ) ); break; case 3: m.setfield( nm,octave_value( octave_int32( 1 ) ) ); break; case 4: m.setfield( nm,octave_value( true ) ); break; case 5: m.setfield( nm,octave_value( "a" ) ); break; default: m.setfield( nm,octave_value( (float)1 ) ); }
	// an entry that is no double scalar must not be taken for one: the default, the value itself or an error are all right
	octave_value_list in=argI( form&1,form&1?0:2,c ),out; in.append( octave_value( m ) ); World w( var ); bool got=call( w.f( ),in,7,out ); if ( !got ) { mc::outcome( ks+lastErr ); return; }
	if ( form&1 ) { w.s[0].r = new Mir; Out t=refInit( *w.s[0].r,true,0,c ); w.s[0].h=out( 0 ).matrix_value( )( 0,0 ); } else { w.s[0].r = new Mir; refInit( *w.s[0].r,false,2,c ); w.s[0].h=out( 0 ).matrix_value( )( 0,0 ); }
	std::string first; bool hit=false; int nC=form&1?0:2; int nAlt = how<3?1:2;
	for( int alt=0; alt<nAlt && !hit; ++alt )
	{
		Opt z=p; double x = how==5?97:1; if ( alt==1 && f<NOF ) setO( z.o,f,x ); if ( alt==1 && f==NOF ) z.maxIter=(int)x;
		Mir r; r.nC=nC; D q=data( 0 ); int_t n=limitOf( z,nC ); double cpu = alt==1 && f==NOF+1 ? x : Q::INFTY; Q::returnValue rv; Out o; std::string why;
		if ( nC ) { r.s = new Q::SQProblem( N,nC ); r.s->setOptions( z.o ); rv=r.s->init( r.H( q.H,0 ),q.g,r.A( q.A,0 ),q.lb,q.ub,q.lA,q.uA,n,&cpu ); } else { r.b = new Q::QProblemB( N ); r.b->setOptions( z.o ); rv=r.b->init( r.H( q.H,0 ),q.g,q.lb,q.ub,n,&cpu ); }
		collect( o,r.any( ),rv,n,nC ); if ( cmp( o,out,7,nC,1,true,why ) ) hit=true; else if ( first=="" ) first=why;
	}
	if ( !hit ) return mc::fail( "odd option",first ); mc::traceValidated( ); mc::outcome( ks ); mc::state( mc::hashStr( ks ) );
}
static const char* AF[5]={"hessianType","x0","guessedWorkingSetB","guessedWorkingSetC","R"};
static void oddAux( int var, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int f=d( 5 ),how=d( 10 ),form=d( 2 ),one=d( 2 ); static const char* HOW[10]={"missing","a row too many","transposed","int32","logical","char","single","sparse","NaN or out of range","cell"};
	std::string ks=mc::fmt( "%s: auxInput %s %s, %s %s",var?"matlab":"octave",AF[f],HOW[how],form?"bounds":"constrained",one?"one-shot":"sequence" ); mc::key( ks );
	Aux a=auxNo( 5 ); a.hR = f==4; if ( a.hR ) a=auxNo( 8 ); int nC=form?0:2; octave_scalar_map m=auxVal( a,nC ).scalar_map_value( ); if ( f==3 && !nC ) return;
	::Matrix v; if ( f==0 ) v=::Matrix( 1,1,2.0 ); else v=m.contents( AF[f] ).matrix_value( ); int r=v.rows( ),c=v.cols( ); bool must=true;   // must: an error is required
	switch( how )
	{
		case 0: m.rmfield( AF[f] ); must=false; break;
		case 1: { ::Matrix n( r+1,c,0.0 ); m.setfield( AF[f],octave_value( n ) ); must = f!=0; } break;
		case 2: if ( f==0 || f==4 ) return; m.setfield( AF[f],octave_value( v.transpose( ) ) ); break;
		case 3: { int32NDArray n( dim_vector( r,c ) ); for( int k=0; k<r*c; ++k ) n( k )=octave_int32( 0 ); m.setfield( AF[f],octave_value( n ) ); must = f!=0; } break;
		case 4: m.setfield( AF[f],octave_value( boolMatrix( r,c,false ) ) ); must = f!=0; break;
		case 5: m.setfield( AF[f],octave_value( charMatrix( r,c,'a' ),'\'' ) ); must = f!=0; break;
		case 6: m.setfield( AF[f],octave_value( FloatMatrix( v ) ) ); must = f!=0; break;
		case 7: if ( f==0 ) return; m.setfield( AF[f],octave_value( ::SparseMatrix( v ) ) ); break;
		case 8: if ( f!=2 && f!=3 ) return; v( r-1 )=0.5; m.setfield( AF[f],octave_value( v ) ); break;
		default: m.setfield( AF[f],octave_value( Cell( r,c ) ) ); must = f!=0;
	}
	mc::evaluation( ); Call k={ 0,0,0,0,1,0 }; octave_value_list in=argI( form,nC,k ),out; in.append( octave_value( m ) ); if ( one ) { octave_value_list t; for( int j=1; j<in.length( ); ++j ) t.append( in( j ) ); in=t; }
	World w( var ); if ( !w.init( 1,false,2,Call{ 1,0,0,0,0,0 } ) ) return mc::fail( "odd auxInput","set-up: "+w.why );
	bool got=call( one?V( var,"qp" ):w.f( ),in,one?6:7,out );
	if ( got && !one ) { octave_value_list q,z; q.append( octave_value( "c" ) ); q.append( out( 0 ) ); call( w.f( ),q,0,z ); }
	if ( got && must ) return mc::fail( "odd auxInput","accepted" ); if ( !w.hot( 1,Call{ 0,0,0,0,0,0 },false ) ) return mc::fail( "after odd auxInput",w.why );
	mc::traceValidated( ); mc::outcome( ks+lastErr ); mc::state( mc::hashStr( ks ) );
}
// presets and helper functions of the interface
static void helpers( int var, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int preset=d( 5 ); static const char* PR[5]={0,"default","reliable","MPC","fast"}; mc::key( mc::fmt( "%s: options preset %s",var?"matlab":"octave",PR[preset]?PR[preset]:"(none)" ) ); mc::evaluation( );
	octave_value_list in,out; if ( PR[preset] ) in.append( octave_value( PR[preset] ) ); if ( !call( V( var,"options" ),in,1,out ) ) return mc::fail( "options function","raised: "+lastErr );
	Opt p=optNo( preset<2?1:preset==2?2:3 ); octave_scalar_map m=out( 0 ).scalar_map_value( ); if ( m.nfields( )!=NOF+3 ) return mc::fail( "options function",mc::fmt( "%d fields",(int)m.nfields( ) ) );
	for( int j=0; j<NOF; ++j ) { if ( !m.isfield( OF[j].nm ) ) return mc::fail( "options function",std::string( "no field " )+OF[j].nm ); double x=m.contents( OF[j].nm ).double_value( ),w=getO( p.o,j ); if ( fabs( x-w )>0.05*fabs( w ) ) return mc::fail( "options function",mc::fmt( "%s is %.17g, C++ has %.17g",OF[j].nm,x,w ) ); }
	octave_value_list e; e.append( octave_value( "nonsense" ) ); if ( call( V( var,"options" ),e,1,out ) ) return mc::fail( "options function","unknown scheme accepted" ); e.append( octave_value( 1.0 ) ); if ( call( V( var,"options" ),e,1,out ) ) return mc::fail( "options function","unknown option accepted" );
	octave_value_list x; x.append( octave_value( "x0" ) ); x.append( octave_value( ::Matrix( 3,1,1.0/3.0 ) ) ); if ( !call( V( var,"auxInput" ),x,1,out ) ) return mc::fail( "auxInput function","raised: "+lastErr ); m=out( 0 ).scalar_map_value( );
	for( int j=0; j<5; ++j ) { if ( !m.isfield( AF[j] ) ) return mc::fail( "auxInput function",std::string( "no field " )+AF[j] ); if ( ( m.contents( AF[j] ).numel( )!=0 )!=( j==1 ) ) return mc::fail( "auxInput function","wrong contents" ); } if ( m.contents( "x0" ).matrix_value( )( 1,0 )!=1.0/3.0 ) return mc::fail( "auxInput function","x0 changed" );
	mc::traceValidated( ); mc::outcome( mc::fmt( "preset %d",preset ) ); mc::state( preset+1 );
}
// ---------------------------------------------------------------- memory: completed sequences leave nothing behind
static void leak( int var, mc::u64 i )
{
	boot( ); mc::Dec d( i ); int ini=d( NINI ),o1=d( NOPS ); mc::key( mc::fmt( "%s: memory after %s and call %d, repeated",var?"matlab":"octave",INI[ini].nm,o1 ) ); mc::evaluation( ); if ( o1==24 || o1==25 || o1==23 ) return;
	size_t at[4]; for( int k=0; k<4; ++k )
	{
		for( int r=0; r<24; ++r ) { World w( var ); if ( !w.init( 1,true,0,Call{ 1,0,0,0,0,0 } ) || !w.init( 0,INI[ini].simple,INI[ini].nC,INI[ini].c ) ) return mc::fail( "memory","set-up: "+w.why ); std::string nm; if ( !op( w,o1,nm ) ) return mc::fail( "memory","call: "+w.why );
			Call c={ ini%NK,ini&1,1,0,1,ini%5==0&&ini%NK==0?8:ini%4 }; octave_value_list in,out; octave_value_list t=argI( ini&2,ini&2?0:2,c ); for( int j=1; j<t.length( ); ++j ) in.append( t( j ) ); if ( !call( V( var,"qp" ),in,6,out ) ) return mc::fail( "memory","one-shot raised: "+lastErr ); }
		at[k]=__sanitizer_get_current_allocated_bytes( );
	}
	if ( at[3]>at[2] && at[2]>at[1] && at[3]-at[2]>=24*16 && at[3]-at[2]==at[2]-at[1] ) return mc::fail( "memory",mc::fmt( "%zu bytes more after each round of 24",at[3]-at[2] ) );
	mc::traceValidated( ); mc::outcome( mc::fmt( "leak %d %d",ini,o1 ) ); mc::state( i+1 );
}
static void setup( )
{
	mc::caseLimit=60;
	for( int v=0; v<2; ++v )
	{
		std::string n=v?"matlab ":"octave "; int dep=mc::thorough?4:3-v; mc::u64 tot=NINI; for( int k=0; k<dep; ++k ) tot*= k==2 && !mc::thorough ? NOPS/3 : NOPS;
		mc::addSection( n+"helpers",5,[v]( mc::u64 i ) { helpers( v,i ); } );
		mc::addSection( n+"bad arguments",8*9*NBAD*2*3,[v]( mc::u64 i ) { bad( v,i ); },20 );
		mc::addSection( n+"counts",9*13*9,[v]( mc::u64 i ) { counts( v,i ); },20 );
		mc::addSection( n+"odd options",( NOF+3 )*7*4,[v]( mc::u64 i ) { oddStruct( v,i ); },20 );
		mc::addSection( n+"odd auxInput",5*10*2*2,[v]( mc::u64 i ) { oddAux( v,i ); },20 );
		mc::addSection( n+"memory",NINI*NOPS,[v]( mc::u64 i ) { leak( v,i ); },4 );
		mc::addSection( n+"options",NOF*NVAL*3*NK*NK,[v]( mc::u64 i ) { oneOption( v,i ); },50 );
		int thin=mc::thorough?0:v; mc::addSection( n+"one-shot",NK*4*3*16*( thin?2:3 )*( mc::thorough?6:3 )*( thin?4:NAUX ),[v,thin]( mc::u64 i ) { shot( v,thin!=0,i ); },200 );
		mc::addSection( n+"sequences",tot,[v,dep]( mc::u64 i ) { seq( v,dep,i ); },200 );
	}
}
int main( int argc, char** argv ) { return mc::main( argc,argv,"C26",RULE,setup ); }
