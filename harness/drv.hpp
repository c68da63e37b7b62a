// drv.hpp - uniform driver over QProblemB / QProblem / SQProblem and observation of a solver object
#pragma once
#include "qp.hpp"

struct Obs                       // everything a caller can observe after an operation
{
	returnValue rv; int_t nWSR; int st; bool inited,solved,inf,unb; double obj;
	double x[NMAX],y[NMAX+MMAX]; double ws[NMAX+MMAX]; int nFR,nFX,nAC,nIAC;
	std::string str( int n, int m, bool full = true ) const
	{
		std::string s = mc::fmt( "rv=%d st=%d solved=%d inf=%d unb=%d",(int)rv,st,solved,inf,unb );
		if ( full && solved ) s += " x=" + vec( x,n ) + " y=" + vec( y,n+m ) + " ws=" + vec( ws,n+m );
		return s;
	}
};

inline const double* nz( const double* p, bool null ) { return null ? (const double*)0 : p; }

template<class P> struct IsSimple { enum { v = 0 }; };
template<> struct IsSimple<QProblemB> { enum { v = 1 }; };

struct Extra { const double *xOpt,*yOpt; const Bounds* gB; const Constraints* gC; const double* R; double* cpu; int nullMask; Extra( ) { memset( this,0,sizeof(*this) ); } };

// nullMask bits: 1 lb, 2 ub, 4 lbA, 8 ubA passed as NULL
inline returnValue dInit( QProblemB& p, const QP& q, int_t& n, const Extra& e = Extra( ) )
{ return p.init( q.H,q.g,nz( q.lb,e.nullMask&1 ),nz( q.ub,e.nullMask&2 ),n,e.cpu,e.xOpt,e.yOpt,e.gB,e.R ); }
inline returnValue dInit( QProblem& p, const QP& q, int_t& n, const Extra& e = Extra( ) )
{ return p.init( q.H,q.g,q.A,nz( q.lb,e.nullMask&1 ),nz( q.ub,e.nullMask&2 ),nz( q.lbA,e.nullMask&4 ),nz( q.ubA,e.nullMask&8 ),n,e.cpu,e.xOpt,e.yOpt,e.gB,e.gC,e.R ); }
inline returnValue dHot( QProblemB& p, const QP& q, int_t& n, const Extra& e = Extra( ) )
{ return p.hotstart( q.g,nz( q.lb,e.nullMask&1 ),nz( q.ub,e.nullMask&2 ),n,e.cpu,e.gB ); }
inline returnValue dHot( QProblem& p, const QP& q, int_t& n, const Extra& e = Extra( ) )
{ return p.hotstart( q.g,nz( q.lb,e.nullMask&1 ),nz( q.ub,e.nullMask&2 ),nz( q.lbA,e.nullMask&4 ),nz( q.ubA,e.nullMask&8 ),n,e.cpu,e.gB,e.gC ); }
inline returnValue dHot( SQProblem& p, const QP& q, int_t& n, const Extra& e = Extra( ) )
{ return p.hotstart( q.g,nz( q.lb,e.nullMask&1 ),nz( q.ub,e.nullMask&2 ),nz( q.lbA,e.nullMask&4 ),nz( q.ubA,e.nullMask&8 ),n,e.cpu,e.gB,e.gC ); }
inline returnValue dHotM( SQProblem& p, const QP& q, int_t& n, const Extra& e = Extra( ) )
{ return p.hotstart( q.H,q.g,q.A,nz( q.lb,e.nullMask&1 ),nz( q.ub,e.nullMask&2 ),nz( q.lbA,e.nullMask&4 ),nz( q.ubA,e.nullMask&8 ),n,e.cpu,e.gB,e.gC ); }

inline void observeC( QProblemB&, Obs& o ) { o.nAC = o.nIAC = 0; }
inline void observeC( QProblem& p, Obs& o ) { o.nAC = p.getNAC( ); o.nIAC = p.getNIAC( ); }
template<class P> Obs observe( P& p, int n, int m, returnValue rv, int_t nWSR )
{
	Obs o; memset( (void*)&o,0,sizeof(o) );
	o.rv=rv; o.nWSR=nWSR; o.st=p.getStatus( ); o.inited=p.isInitialised( )==BT_TRUE; o.solved=p.isSolved( )==BT_TRUE; o.inf=p.isInfeasible( )==BT_TRUE; o.unb=p.isUnbounded( )==BT_TRUE;
	o.obj=p.getObjVal( );
	if ( o.solved ) { p.getPrimalSolution( o.x ); p.getDualSolution( o.y ); }
	if ( o.inited ) p.getWorkingSet( o.ws );
	o.nFR=p.getNFR( ); o.nFX=p.getNFX( );
	observeC( p,o );
	(void)n; (void)m;
	return o;
}
inline bool sameBits( const Obs& a, const Obs& b, int n, int m, std::string* why = 0 )
{
	#define CMP( f ) if ( a.f != b.f ) { if ( why ) *why = std::string( #f " differs: " ) + a.str( n,m ) + mc::fmt( " nWSR=%d",(int)a.nWSR ) + " / " + b.str( n,m ) + mc::fmt( " nWSR=%d",(int)b.nWSR ); return false; }
	CMP( rv ) CMP( nWSR ) CMP( st ) CMP( inited ) CMP( solved ) CMP( inf ) CMP( unb ) CMP( nFR ) CMP( nFX ) CMP( nAC ) CMP( nIAC )
	#undef CMP
	for( int i=0; i<n; ++i ) if ( a.x[i]!=b.x[i] && !( a.x[i]!=a.x[i] && b.x[i]!=b.x[i] ) ) { if ( why ) *why = "x differs: " + a.str( n,m ) + " / " + b.str( n,m ); return false; }
	for( int i=0; i<n+m; ++i ) if ( ( a.y[i]!=b.y[i] && !( a.y[i]!=a.y[i] && b.y[i]!=b.y[i] ) ) || a.ws[i]!=b.ws[i] ) { if ( why ) *why = "y/ws differs: " + a.str( n,m ) + " / " + b.str( n,m ); return false; }
	return true;
}

// classes of QPs for which success is demanded
inline bool judged( const QP& q, int presetIdx, bool pd ) { return pd || ( presetIdx<2 && hasCompactSolutionSet( q ) ); }

// C01/C02/C03 verdict of one observed solve; returns "" if fine
inline std::string judge( const QP& q, const Obs& o, int presetIdx, bool afterInfeasible = false )
{
	const bool pd = isPD( q.H,q.n );
	if ( !isFeasible( q ) )
	{
		if ( o.rv==SUCCESSFUL_RETURN || o.solved ) return "infeasible QP solved: " + o.str( q.n,q.m );
		if ( ( pd || ( presetIdx<2 && boxed( q ) ) ) && !o.inf ) return "infeasible QP not reported infeasible: " + o.str( q.n,q.m );
		return "";
	}
	if ( !pd && isUnboundedConvex( q ) ) return "";
	if ( !judged( q,presetIdx,pd ) ) return "";
	if ( o.rv!=SUCCESSFUL_RETURN )
	{
		// no promise for a degenerate feasible set with simplified tests, or from the degenerate point where a previous QP became infeasible
		if ( ( presetIdx>=2 || afterInfeasible ) && !isRegular( q ) ) return "";
		// without ramping zero-step cycling is not excluded
		if ( presetIdx>=4 && o.rv==RET_MAX_NWSR_REACHED ) return "";
	}
	if ( o.rv!=SUCCESSFUL_RETURN || !o.solved ) return "feasible QP not solved: " + o.str( q.n,q.m );
	if ( o.inf || o.unb ) return "solved but flagged infeasible/unbounded: " + o.str( q.n,q.m );
	Kkt k = kkt( q,o.x,o.y ); double sc = 1; for( int i=0; i<q.n; ++i ) sc = std::max( sc,fabs( o.x[i] ) );
	if ( k.worst( ) > 1e-6*sc ) return mc::fmt( "not optimal: stationarity %g feasibility %g complementarity %g ",k.stat,k.feas,k.cmpl ) + o.str( q.n,q.m );
	if ( fabs( o.obj-objective( q,o.x ) ) > 5e-6*sc*sc )   // terminationTolerance 2e-7 relative
		 return mc::fmt( "objective %.12g, actual %.12g ",o.obj,objective( q,o.x ) ) + o.str( q.n,q.m );
	return "";
}

// families: fixed H, A and a list of data vectors (g,lb,ub,lbA,ubA)
struct Fam { std::string name; int n,m; std::vector<QP> d; bool pd; };
typedef std::vector<std::vector<double> > VV;
inline Fam family( const char* name, int n, int m, const std::vector<double>& H, const VV& A, const VV& gs, const std::vector<int>& vb, const std::vector<int>& cb )
{
	Fam f; f.name=name; f.n=n; f.m=m; f.pd = isPD( H.data( ),n );
	mc::u64 tot = gs.size( ); for( int i=0; i<n; ++i ) tot*=vb.size( ); for( int i=0; i<m; ++i ) tot*=cb.size( );
	for( mc::u64 c=0; c<tot; ++c )
	{
		mc::Dec d( c ); QP q; q.n=n; q.m=m;
		for( int i=0; i<n*n; ++i ) q.H[i]=H[i];
		for( int i=0; i<m; ++i ) for( int j=0; j<n; ++j ) q.A[i*n+j]=A[i][j];
		const std::vector<double>& g = gs[d( gs.size( ) )]; for( int i=0; i<n; ++i ) q.g[i]=g[i];
		for( int i=0; i<n; ++i ) { Range r=RANGES[vb[d( vb.size( ) )]]; q.lb[i]=r.l; q.ub[i]=r.u; }
		for( int i=0; i<m; ++i ) { Range r=RANGES[cb[d( cb.size( ) )]]; q.lbA[i]=r.l; q.ubA[i]=r.u; }
		f.d.push_back( q );
	}
	return f;
}
// every k-th element only (spreads a family thinly and deterministically)
inline Fam thin( Fam f, size_t want )
{
	if ( f.d.size( ) <= want ) return f;
	std::vector<QP> r; double step = (double)f.d.size( )/want;
	for( size_t i=0; i<want; ++i ) r.push_back( f.d[(size_t)( (i+0.5)*step )] );
	f.d = r; return f;
}
// option variants used by the history properties: 4 presets + single-switch variations of default
enum { NVAR = 18 };
inline Options variant( int k, std::string* nm = 0 )
{
	static const char* names[] = {"default","reliable","MPC","fast","default+drift1","default+noramp","default+nofar","default+noflip","default+equalities","default+nzc","default+initUPPER","default+initLOWER","reliable+chol2+drift2","default+nofullLI","default+smallfar","reliable+ramps","default+reg3","MPC+smallfar"};
	if ( nm ) *nm = names[k];
	Options o = preset( k<4 ? k : k==12 || k==15 ? 1 : k==17 ? 2 : 0 );
	switch( k )
	{
		case 4: o.enableDriftCorrection = 1; break;
		case 5: o.enableRamping = BT_FALSE; break;
		case 6: o.enableFarBounds = BT_FALSE; break;
		case 7: o.enableFlippingBounds = BT_FALSE; break;
		case 8: o.enableEqualities = BT_TRUE; break;
		case 9: o.enableNZCTests = BT_FALSE; break;
		case 10: o.initialStatusBounds = ST_UPPER; break;
		case 11: o.initialStatusBounds = ST_LOWER; o.enableFlippingBounds = BT_FALSE; break;
		case 12: o.enableCholeskyRefactorisation = 2; o.enableDriftCorrection = 2; break;
		case 13: o.enableFullLITests = BT_FALSE; break;
		case 14: case 17: o.boundRelaxation = 0.25; o.initialFarBounds = 1.0; o.growFarBounds = 10.0; break;   // far bounds have to grow for almost every QP
		case 15: o.initialRamping = 0.1; o.finalRamping = 3.0; o.numRefinementSteps = 2; break;
		case 16: o.enableRegularisation = BT_TRUE; o.numRegularisationSteps = 3; break;
	}
	return o;
}
// index for judge(): completeness for semidefinite QPs only promised for default(0)/reliable(1)
// 2: any other variant, 4: any variant without ramping
inline int judgeIdx( int k ) { return k==0 ? 0 : k==1 ? 1 : variant( k ).enableRamping==BT_FALSE ? 4 : 2; }
// i-th of nvar variants: a shortened list ends with the small far bounds
inline int shortVar( int i, int nvar ) { return nvar<NVAR && nvar>=5 && i==nvar-1 ? 14 : i; }
