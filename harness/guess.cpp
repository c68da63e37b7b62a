// C07: the result does not depend on the initial guess (primal / dual point, working set, Cholesky factor) nor on a working set guess at a hotstart
#include "drv.hpp"
static const char* RULE =
	"Every QP of the families x every kind of initial guess: all working set guesses (lower/inactive/upper)^n x (..)^m, all primal points of a grid, primal and dual points, primal point plus working set, primal+dual+working set, Cholesky factor of H; "
	"hotstarts with every working set guess.  Every outcome is judged by the exact model, and the guess objects and arrays must be unchanged.  transitions = solves.";
static std::vector<Fam> fams;
static SubjectToStatus ST3[3] = { ST_LOWER,ST_INACTIVE,ST_UPPER };
static int pow3( int k ) { int r=1; while( k-- ) r*=3; return r; }
static void setG( Bounds& b, int n, int code ) { b.init( n ); for( int i=0; i<n; ++i ) { b.setupBound( i,ST3[code%3] ); code/=3; } }
static void setG( Constraints& c, int m, int code ) { c.init( m ); for( int i=0; i<m; ++i ) { c.setupConstraint( i,ST3[code%3] ); code/=3; } }
static std::string code3( int n, int code ) { std::string s; for( int i=0; i<n; ++i ) { s += "LIU"[code%3]; code/=3; } return s; }
template<class P> P* mkP( int n, int m );
template<> QProblemB* mkP<QProblemB>( int n, int ) { return new QProblemB( n ); }
template<> QProblem* mkP<QProblem>( int n, int m ) { return new QProblem( n,m ); }
template<> SQProblem* mkP<SQProblem>( int n, int m ) { return new SQProblem( n,m ); }
struct G { int kind, wb, wc; double x[NMAX], y[NMAX+MMAX]; std::string s; };
// kind bits: 1 xOpt, 2 yOpt, 4 guessed bounds, 8 guessed constraints, 16 R, 32 use at hotstart instead
template<class P> static bool one( const Fam& f, const QP& q, const QP& q2, int var, const G& g )
{
	P* p = mkP<P>( f.n,f.m ); p->setOptions( variant( var ) ); Extra e; Bounds gb; Constraints gc; double R[NMAX*NMAX];
	bool pre = g.kind&32; int_t nW = 200; returnValue rv; Obs o;
	if ( pre ) { rv = dInit( *p,q2,nW ); o = observe( *p,f.n,f.m,rv,nW ); mc::transition( ); if ( rv!=SUCCESSFUL_RETURN ) { delete p; mc::stat( "first QP not solvable" ); return true; } }
	if ( g.kind&1 ) e.xOpt = g.x;
	if ( g.kind&2 ) e.yOpt = g.y;
	if ( g.kind&4 ) { setG( gb,f.n,g.wb ); e.gB = &gb; }
	if ( g.kind&8 ) { setG( gc,f.m,g.wc ); e.gC = &gc; }
	if ( g.kind&16 ) { memset( R,0,sizeof(R) ); for( int i=0; i<f.n; ++i ) for( int j=i; j<f.n; ++j ) { double s=q.H[i*f.n+j]; for( int k=0; k<i; ++k ) s -= R[k*f.n+i]*R[k*f.n+j]; if ( j==i ) R[i*f.n+i]=sqrt( s ); else R[i*f.n+j]=s/R[i*f.n+i]; } e.R = R; }
	G keep = g; nW = 200;
	rv = pre ? dHot( *p,q,nW,e ) : dInit( *p,q,nW,e );
	o = observe( *p,f.n,f.m,rv,nW ); mc::transition( ); delete p;
	std::string w;
	if ( rv==RET_INVALID_ARGUMENTS || rv==RET_NO_CHOLESKY_WITH_INITIAL_GUESS ) w = "legal guess rejected: " + o.str( f.n,f.m );
	else if ( !f.pd && !o.solved && !o.inf && !o.unb ) mc::stat( "semidefinite QP given up" );   // no promise from arbitrary starting sets
	else w = judge( q,o,judgeIdx( var ),!f.pd );
	if ( w.empty( ) && ( memcmp( g.x,keep.x,sizeof(g.x) ) || memcmp( g.y,keep.y,sizeof(g.y) ) ) ) w = "guess arrays modified";
	if ( w.empty( ) && ( g.kind&4 ) ) for( int i=0,c=g.wb; i<f.n; ++i,c/=3 ) if ( gb.getStatus( i )!=ST3[c%3] ) w = "guessed bounds modified";
	if ( w.empty( ) && ( g.kind&8 ) ) for( int i=0,c=g.wc; i<f.m; ++i,c/=3 ) if ( gc.getStatus( i )!=ST3[c%3] ) w = "guessed constraints modified";
	if ( !w.empty( ) ) { mc::fail( mc::fmt( "%s-%s",f.pd?"PD":"SD",pre?"hotstart":"init" ),w + " guess " + g.s + " for " + show( q ) + ( pre?" after " + show( q2 ):"" ) ); return false; }
	mc::state( mc::hashBytes( o.ws,sizeof(o.ws),mc::hashBytes( o.x,sizeof(o.x),mc::hashBytes( o.y,sizeof(o.y),rv*64 ) ) ) ); mc::traceValidated( );
	mc::sample( "guess " + g.s + " -> " + o.str( f.n,f.m ) + " for " + show( q ) );
	return true;
}
enum { NGRID = 4 }; static const double GRID[NGRID] = { 0,1,-1,5 };
template<class P> static void all( const Fam& f, int qi, int var, int kindSel )
{
	const QP& q = f.d[qi]; int nb = pow3( f.n ), nc = pow3( f.m ); const QP& q2 = f.d[(qi*7+3)%f.d.size( )];
	int NX = 1; for( int i=0; i<f.n; ++i ) NX*=NGRID;
	auto setX = [&]( G& g, int c ) { for( int i=0; i<f.n; ++i ) { g.x[i]=GRID[c%NGRID]; c/=NGRID; } };
	static const double YP[6][7] = {{0,0,0,0,0,0,0},{1,1,1,1,1,1,1},{-1,-1,-1,-1,-1,-1,-1},{2,-1,0,1,-3,0,0},{0,0,0,2,-2,1,0},{-1,2,0,0,0,0,3}};
	if ( kindSel==0 ) for( int b=0; b<nb; ++b ) for( int c=0; c<nc; ++c ) for( int part=0; part<( f.m?3:1 ); ++part )   // working set guesses
	{
		G g; memset( g.x,0,sizeof(g.x) ); memset( g.y,0,sizeof(g.y) ); g.wb=b; g.wc=c; g.kind = f.m==0 ? 4 : part==0 ? 12 : part==1 ? 4 : 8; if ( part==1 && c ) continue; if ( part==2 && b ) continue;
		g.s = mc::fmt( "ws(%d) ",g.kind ) + code3( f.n,b ) + "/" + code3( f.m,c ); if ( !one<P>( f,q,q2,var,g ) ) return;
	}
	if ( kindSel==1 ) for( int xc=0; xc<NX; ++xc ) for( int yk=0; yk<7; ++yk )        // x, x+y
	{
		G g; memset( g.y,0,sizeof(g.y) ); setX( g,xc ); g.wb=g.wc=0; g.kind=1; if ( yk ) { g.kind|=2; memcpy( g.y,YP[yk-1],sizeof(double)*( f.n+f.m ) ); }
		g.s = "x=" + vec( g.x,f.n ) + ( yk ? " y=" + vec( g.y,f.n+f.m ) : "" ); if ( !one<P>( f,q,q2,var,g ) ) return;
	}
	if ( kindSel==2 ) { for( int yk=0; yk<6; ++yk ) { G g; memset( g.x,0,sizeof(g.x) ); g.wb=g.wc=0; g.kind=2; memcpy( g.y,YP[yk],sizeof(double)*( f.n+f.m ) ); g.s="y=" + vec( g.y,f.n+f.m ); if ( !one<P>( f,q,q2,var,g ) ) return; }
		if ( f.pd && variant( var ).initialStatusBounds==ST_INACTIVE ) { G g; memset( g.x,0,sizeof(g.x) ); memset( g.y,0,sizeof(g.y) ); g.wb=g.wc=0; g.kind=16; g.s="R"; if ( !one<P>( f,q,q2,var,g ) ) return; } }
	if ( kindSel==3 ) for( int b=0; b<nb; ++b ) for( int c=0; c<nc; ++c ) for( int xc=0; xc<NX; xc+=( f.n>2?3:1 ) ) for( int yk=0; yk<3; ++yk )
	{
		G g; memset( g.y,0,sizeof(g.y) ); setX( g,xc ); g.wb=b; g.wc=c; g.kind=5|( f.m?8:0 ); if ( yk ) { g.kind|=2; memcpy( g.y,YP[yk==1?3:0],sizeof(double)*( f.n+f.m ) ); }
		g.s = "x=" + vec( g.x,f.n ) + ( yk ? " y=" + vec( g.y,f.n+f.m ) : "" ) + " ws " + code3( f.n,b ) + "/" + code3( f.m,c ); if ( !one<P>( f,q,q2,var,g ) ) return;
	}
	if ( kindSel==4 ) for( int b=0; b<nb; ++b ) for( int c=0; c<nc; ++c ) for( int part=0; part<( f.m?3:1 ); ++part )
	{
		G g; memset( g.x,0,sizeof(g.x) ); memset( g.y,0,sizeof(g.y) ); g.wb=b; g.wc=c; g.kind = 32|( f.m==0 ? 4 : part==0 ? 12 : part==1 ? 4 : 8 ); if ( part==1 && c ) continue; if ( part==2 && b ) continue;
		g.s = mc::fmt( "hotstart ws(%d) ",g.kind ) + code3( f.n,b ) + "/" + code3( f.m,c ); if ( !one<P>( f,q,q2,var,g ) ) return;
	}
}
static void add( Fam f, int nvar, int cls, int sel = 0 )
{
	fams.push_back( f ); size_t fi = fams.size( )-1; static const char* kn[] = {"ws","x","y","xws","hot"};
	for( int kind=0; kind<5; ++kind )
	{
		if ( sel && kind!=0 && kind!=4 ) continue;
		std::string sec = f.name + "_" + kn[kind];
		mc::addSection( sec,f.d.size( )*nvar,[=]( mc::u64 i )
		{
			mc::Dec d( i ); int var=shortVar( d( nvar ),nvar ), qi=d( fams[fi].d.size( ) ); std::string vn; variant( var,&vn );
			mc::key( vn + " " + sec + mc::fmt( " %d",qi ) ); mc::evaluation( );
			if ( cls==0 ) all<QProblemB>( fams[fi],qi,var,kind ); else if ( cls==1 ) all<QProblem>( fams[fi],qi,var,kind ); else all<SQProblem>( fams[fi],qi,var,kind );
		},2 );
	}
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C07",RULE,[]
	{
		mc::registerStat( "first QP not solvable" ); mc::registerStat( "semidefinite QP given up" ); mc::caseLimit = 60;
		fams.clear( ); fams.reserve( 100 ); const bool T = mc::thorough;
		std::vector<double> H2a={2,-1,-1,2}, H2i={1,0,0,1}, H2s={1,-1,-1,1}, H3={2,1,0,1,2,-1,0,-1,2}, H1={2}, H2z={0,0,0,0};
		VV g2={{-2,1},{1,1},{0,-2}}, g3={{-2,1,1},{1,-2,0},{3,3,-3}}, g1={{-2},{0},{1}}, g4={{-2,1,1,-1},{1,-2,0,3},{-3,-3,3,3}}, A41={{1,1,-1,0}}, A42={{1,1,-1,0},{0,1,1,2}};
		std::vector<double> H4={3,1,0,-1, 1,2,0,0, 0,0,2,1, -1,0,1,3};
		VV A21={{1,1}}, A22={{1,1},{1,-1}}, A22d={{1,1},{2,2}}, A32={{1,1,1},{1,-1,0}}, A33={{1,1,1},{1,-1,0},{0,1,2}}, A23={{1,1},{1,-1},{1,0}};
		add( family( "B1",1,0,H1,VV(),g1,{0,1,2,3,4,5,6,7,8},{} ),NVAR,0 );
		add( thin( family( "B2",2,0,H2a,VV(),g2,{0,1,2,4,5,6,7},{} ),T?147:60 ),NVAR,0 );
		add( thin( family( "B2i",2,0,H2i,VV(),g2,{0,1,2,4,5,6},{} ),T?108:30 ),NVAR,0 );
		add( thin( family( "B3",3,0,H3,VV(),g3,{0,1,2,5,6},{} ),T?200:40 ),T?NVAR:5,0 );
		add( thin( family( "Q21",2,1,H2a,A21,g2,{0,1,2,5},{0,8,5,2} ),T?96:40 ),NVAR,1 );
		add( thin( family( "Q22",2,2,H2a,A22,g2,{0,1,2,4},{0,4,5,3} ),T?200:40 ),T?NVAR:6,1 );
		add( thin( family( "Q22d",2,2,H2i,A22d,g2,{0,1,2},{0,5,3} ),T?81:24 ),T?NVAR:5,1 );
		add( thin( family( "Q23",2,3,H2a,A23,g2,{0,1,2},{0,4,3} ),T?120:16 ),T?NVAR:5,1 );
		add( thin( family( "Q22s",2,2,H2s,A22,g2,{0,5},{0,5,3} ),T?60:20 ),2,1 );
		add( thin( family( "Q22z",2,2,H2z,A22,g2,{0,5},{0,5,3} ),T?60:20 ),2,1 );
		add( thin( family( "Q32",3,2,H3,A32,g3,{0,1,2,5},{0,9,5,3} ),T?150:16 ),T?NVAR:5,1 );
		add( thin( family( "B2z",2,0,H2z,VV(),g2,{0,4,5,6},{} ),T?48:24 ),4,0 );
		add( thin( family( "B2s",2,0,H2s,VV(),g2,{0,1,2,5},{} ),T?48:24 ),4,0 );
		add( thin( family( "Q41",4,1,H4,A41,g4,{0,0,5,2},{0,8,5,2} ),T?150:12 ),T?4:2,1,2 );
		add( family( "Q41t",4,1,{2,0,0,0,0,2,0,0,0,0,2,0,0,0,0,2},{{1,1,1,1}},{{-1,5,5,5},{-1,1,-3,0},{5,-3,5,-1}},{0},{6,1,8} ),4,1,2 );
		add( thin( family( "Q42",4,2,H4,A42,g4,{0,0,5,2},{0,8,5,2} ),T?60:3 ),T?4:1,1,2 );
		add( thin( family( "B4",4,0,H4,VV(),g4,{0,1,2,5,6},{} ),T?150:24 ),4,0,2 );
		add( thin( family( "S22",2,2,H2a,A22,g2,{0,1,2,4},{0,4,5,3} ),T?60:12 ),4,2 );
	} );
}
