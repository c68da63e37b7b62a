// C01-C04: verdict and optimality of a cold-started solve.
// Exhaustive enumeration of integer QPs; oracle: exact feasibility/unboundedness (Fourier-Motzkin)
// and an independent KKT check of the returned primal/dual pair.
#include "qp.hpp"
#ifndef PROP
#define PROP 1
#endif

static const char* RULE =
	"A case is one cold-started init() of the real QProblemB / QProblem: (option preset or one of 3456 combinations of the algorithmic switches) x (every QP of an "
	"integer alphabet: all PSD Hessians, gradients, constraint rows and bound ranges incl. free, one-sided, fixed, shifted and contradictory).  Every index of every "
	"section is executed once.  The verdict (feasible/infeasible/unbounded) is computed exactly by integer Fourier-Motzkin elimination, optimality by an independent KKT "
	"residual.  States are distinct (return value, status, iterations, verdict, preset, primal solution) outcomes; transitions are the working set changes the solver performed; every enumerated trace is executed on the implementation itself.";

struct Space
{
	int n,m; bool simple;          // simple: QProblemB
	std::vector<std::vector<double> > H,g,A;
	std::vector<Range> vb,cb;
	mc::u64 count( ) const
	{
		mc::u64 c = NOPT; c *= H.size( ); c *= g.size( );
		for( int i=0; i<n; ++i ) c *= vb.size( );
		for( int i=0; i<m; ++i ) { c *= cb.size( ); c *= A.size( ); }
		return c;
	}
	int decode( mc::u64 i, QP& q ) const   // returns preset
	{
		mc::Dec d( i ); int o = d( NOPT );
		q.n = n; q.m = m;
		const std::vector<double>& h = H[d( H.size( ) )]; for( int k=0; k<n*n; ++k ) q.H[k] = h[k];
		const std::vector<double>& gg = g[d( g.size( ) )]; for( int k=0; k<n; ++k ) q.g[k] = gg[k];
		for( int k=0; k<n; ++k ) { Range r = vb[d( vb.size( ) )]; q.lb[k]=r.l; q.ub[k]=r.u; }
		for( int k=0; k<m; ++k )
		{
			const std::vector<double>& a = A[d( A.size( ) )]; for( int j=0; j<n; ++j ) q.A[k*n+j] = a[j];
			Range r = cb[d( cb.size( ) )]; q.lbA[k]=r.l; q.ubA[k]=r.u;
		}
		return o;
	}
};



static void check( const QP& q, int o, bool simple, const Options* special = 0, const char* specialName = 0 )
{
	const Options opt = special ? *special : preset( o );
	mc::key( std::string( special ? specialName : presetName( o ) ) + ( simple?" QProblemB ":" QProblem " ) + show( q ) );
	bool pd = isPD( q.H,q.n ), zero = true;
	for( int i=0; i<q.n*q.n; ++i ) if ( q.H[i]!=0 ) zero = false;
	Verdict v = classify( q );
	returnValue rv; BooleanType inf,unb,solved; double x[NMAX],y[NMAX+MMAX],obj;
	int_t nWSR = 200; QProblemStatus st;
	memset( x,0,sizeof(x) ); memset( y,0,sizeof(y) );
	if ( simple )
	{
		QProblemB p( q.n ); p.setOptions( opt );
		rv = p.init( q.H,q.g,q.lb,q.ub,nWSR );
		inf=p.isInfeasible( ); unb=p.isUnbounded( ); solved=p.isSolved( ); st=p.getStatus( ); obj=p.getObjVal( );
		if ( rv == SUCCESSFUL_RETURN ) { p.getPrimalSolution( x ); p.getDualSolution( y ); }
	}
	else
	{
		QProblem p( q.n,q.m ); p.setOptions( opt );
		rv = p.init( q.H,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA,nWSR );
		inf=p.isInfeasible( ); unb=p.isUnbounded( ); solved=p.isSolved( ); st=p.getStatus( ); obj=p.getObjVal( );
		if ( rv == SUCCESSFUL_RETURN ) { p.getPrimalSolution( x ); p.getDualSolution( y ); }
	}
	mc::evaluation( ); if ( nWSR > 0 ) mc::transition( nWSR ); // working set changes performed
	mc::stat( v==INFEASIBLE?"oracle infeasible":v==UNBOUNDED?"oracle unbounded":"oracle solvable" );
	mc::outcome( mc::fmt( "%d %d %d %d %d ",rv,(int)st,(int)nWSR,v,o ) + ( rv==SUCCESSFUL_RETURN ? vec( x,q.n ) : std::string( ) ),v!=INFEASIBLE || PROP==3 );
	const char* cls = pd ? "PD" : zero ? "LP" : "SD";
	if ( rv == SUCCESSFUL_RETURN ) mc::stat( "solved" );
	mc::traceValidated( );
	std::string T = std::string( cls ) + "_" + ( special ? specialName : presetName( o ) );
	#if PROP==1
	if ( rv==SUCCESSFUL_RETURN )
	{
		if ( v==FEASIBLE_BOUNDED && ( pd || hasCompactSolutionSet( q ) ) )
		{
			mc::stat( "optimality judged" );
			Kkt k = kkt( q,x,y );
			double scale = 1.0; for( int i=0; i<q.n; ++i ) scale = std::max( scale,fabs( x[i] ) );
			if ( k.worst( ) > 1e-6*scale ) mc::fail( "not-optimal",mc::fmt( "%s stationarity %g feasibility %g complementarity %g x=%s y=%s",T.c_str( ),k.stat,k.feas,k.cmpl,vec( x,q.n ).c_str( ),vec( y,q.n+q.m ).c_str( ) ) );
			if ( fabs( obj-objective( q,x ) ) > 1e-6*scale*scale ) mc::fail( "objective",mc::fmt( "reported %g, actual %g",obj,objective( q,x ) ) );
			if ( solved != BT_TRUE || inf == BT_TRUE || unb == BT_TRUE || st != QPS_SOLVED ) mc::fail( "status",mc::fmt( "success but solved=%d infeasible=%d unbounded=%d status=%d",solved,inf,unb,st ) );
			mc::sample( std::string( "x=" )+vec( x,q.n )+" y="+vec( y,q.n+q.m )+" for "+show( q ) );
		}
	}
	else if ( solved == BT_TRUE && nWSR>=0 && st==QPS_SOLVED ) mc::fail( "status",mc::fmt( "error %d but isSolved",rv ) );
	#elif PROP==2
	if ( v==FEASIBLE_BOUNDED )
	{
		bool must = pd || ( o<2 && hasCompactSolutionSet( q ) );
		if ( must ) mc::stat( "completeness demanded" );
		if ( must && rv!=SUCCESSFUL_RETURN )
			mc::fail( pd?"unsolved-strictly-convex":"unsolved-convex",mc::fmt( "%s rv=%d nWSR=%d inf=%d unb=%d",T.c_str( ),rv,(int)nWSR,inf,unb ) );
		if ( rv==SUCCESSFUL_RETURN ) mc::sample( mc::fmt( "%d working set recalculations for ",(int)nWSR )+show( q ) );
	}
	if ( rv==RET_MAX_NWSR_REACHED ) mc::stat( "iteration limit" );
	#elif PROP==3
	if ( v==INFEASIBLE )
	{
		bool must = pd || ( o<2 && boxed( q ) );
		if ( must ) mc::stat( "infeasibility report demanded" );
		if ( rv==SUCCESSFUL_RETURN || solved==BT_TRUE ) mc::fail( "infeasible-solved",T );
		else if ( must && inf != BT_TRUE ) mc::fail( "infeasible-not-reported",mc::fmt( "%s rv=%d unb=%d",T.c_str( ),rv,unb ) );
		else if ( must && rv!=RET_INIT_FAILED_INFEASIBILITY && rv!=RET_QP_INFEASIBLE ) mc::fail( "infeasible-wrong-code",mc::fmt( "%s rv=%d",T.c_str( ),rv ) );
		mc::sample( mc::fmt( "rv=%d infeasible=%d for ",rv,inf )+show( q ) );
	}
	else if ( v==FEASIBLE_BOUNDED && inf==BT_TRUE && ( pd || ( o<2 && hasCompactSolutionSet( q ) ) ) ) mc::fail( "feasible-called-infeasible",mc::fmt( "%s rv=%d",T.c_str( ),rv ) );
	#elif PROP==4
	if ( unb==BT_TRUE )
	{
		if ( v==INFEASIBLE && ( pd || boxed( q ) ) ) mc::fail( "infeasible-called-unbounded",T );
		if ( v==FEASIBLE_BOUNDED && ( pd || hasCompactSolutionSet( q ) ) ) mc::fail( "bounded-called-unbounded",mc::fmt( "%s rv=%d",T.c_str( ),rv ) );
	}
	if ( v==UNBOUNDED )
	{
		double big = 0; for( int i=0; i<q.n; ++i ) big = std::max( big,fabs( x[i] ) );
		bool must = o<2 && hasCoordinateRay( q ) && ( simple ? q.n==1 || ( q.n==2 && !zero ) : q.n<=2 );
		if ( must ) mc::stat( "unboundedness report demanded" );
		if ( rv==SUCCESSFUL_RETURN && ( must || ( q.n<=2 && big < 1.0e5 ) ) ) mc::fail( "unbounded-solved",mc::fmt( "%s x=%s",T.c_str( ),vec( x,q.n ).c_str( ) ) );
		else if ( must && unb!=BT_TRUE ) mc::fail( "unbounded-not-reported",mc::fmt( "%s rv=%d inf=%d",T.c_str( ),rv,inf ) );
		mc::sample( mc::fmt( "rv=%d unbounded=%d |x|=%g for ",rv,unb,big )+show( q ) );
	}
	#endif
}

static void add( const char* name, Space s )
{
	Space* p = new Space( s );
	mc::addSection( name,p->count( ),[p]( mc::u64 i ) { QP q; int o = p->decode( i,q ); check( q,o,p->simple ); } );
}

// numerical options away from their presets; every one of them is only a matter of how the solution is found
enum { NNUM = 16 };
static Options numOpt( int k, std::string& nm )
{
	Options o = preset( k==13 ? 1 : k>=14 ? 2 : 0 );
	static const char* N[NNUM] = {"far bounds 1 x10","far bounds 1 x1.5","far bounds 2 x1000","relaxation 0.01","relaxation 1","ramping 0.1..3","ramping 0..0.1","ramping 5..1","3 regularisation steps","3 refinement steps","drift correction 3","termination 1e-9","growth 1.1, far bounds 3","reliable far bounds 1 x10","MPC far bounds 1 x10","MPC ramping 2..3"};
	nm = N[k];
	switch( k )
	{
		case 0: case 13: case 14: o.boundRelaxation=0.25; o.initialFarBounds=1; o.growFarBounds=10; break;
		case 1: o.boundRelaxation=0.25; o.initialFarBounds=1; o.growFarBounds=1.5; break;
		case 2: o.boundRelaxation=0.25; o.initialFarBounds=2; o.growFarBounds=1000; break;
		case 3: o.boundRelaxation=0.01; break;
		case 4: o.boundRelaxation=1; break;
		case 5: o.initialRamping=0.1; o.finalRamping=3; break;
		case 6: o.initialRamping=0; o.finalRamping=0.1; break;
		case 7: o.initialRamping=5; o.finalRamping=1; break;
		case 8: o.enableRegularisation=BT_TRUE; o.numRegularisationSteps=3; break;
		case 9: o.numRefinementSteps=3; break;
		case 10: o.enableDriftCorrection=3; break;
		case 11: o.terminationTolerance=1e-9; break;
		case 12: o.boundRelaxation=2.5; o.initialFarBounds=3; o.growFarBounds=1.1; break;
		case 15: o.enableRamping=BT_TRUE; o.initialRamping=2; o.finalRamping=3; break;
	}
	return o;
}
static void addNum( const char* name, Space s )
{
	Space* p = new Space( s );
	mc::addSection( name,p->count( )/NOPT*NNUM,[p]( mc::u64 i ) { QP q; mc::Dec d( i ); int k = d( NNUM ); p->decode( d.v*NOPT,q ); std::string nm; Options o = numOpt( k,nm ); check( q,4,p->simple,&o,nm.c_str( ) ); } );
}

static std::vector<Range> R( std::vector<int> ids ) { std::vector<Range> r; for( int i : ids ) r.push_back( RANGES[i] ); return r; }

int main( int argc, char** argv )
{
	return mc::main( argc,argv,mc::fmt( "C%02d",PROP ).c_str( ),RULE,[]
	{
		for( const char* s : {"optimality judged","completeness demanded","infeasibility report demanded","unboundedness report demanded","oracle solvable","oracle infeasible","oracle unbounded","solved","iteration limit"} ) mc::registerStat( s );
		std::vector<Range> all = R( {0,1,2,3,4,5,6,7,8,9} );
		const bool T = mc::thorough;
		// every combination of algorithmic switches on a set of strictly convex QPs
		static std::vector<QP> base;
		for( int n=1; n<=3; ++n ) for( int m=0; m<=2; ++m ) for( int k=0; k<4; ++k )
		{
			static const double H[3][9] = {{2},{2,-1,-1,2},{2,1,0,1,2,-1,0,-1,2}}, I[3][9] = {{1},{1,0,0,1},{1,0,0,0,1,0,0,0,1}};
			static const double g[4][3] = {{-2,-2,-2},{1,-2,1},{0,0,0},{-1,2,-2}}, A[2][3] = {{1,1,1},{1,-1,0}};
			QP q; q.n=n; q.m=m;
			memcpy( q.H,k==1?I[n-1]:H[n-1],sizeof(double)*n*n );
			for( int i=0; i<n; ++i ) { q.g[i]=g[k][i]; Range r = RANGES[ k==0 ? 0 : k==1 ? (i==0?4:1) : k==2 ? 2 : (i==0?5:3) ]; q.lb[i]=r.l; q.ub[i]=r.u; }
			for( int i=0; i<m; ++i ) { for( int j=0; j<n; ++j ) q.A[i*n+j]=A[i][j]; Range r = RANGES[ k==0 ? (i?4:0) : k==1 ? 2 : k==2 ? 5 : 3 ]; q.lbA[i]=r.l; q.ubA[i]=r.u; }
			base.push_back( q );
		}
		mc::addSection( "OPTIONS",base.size( )*NCOMBO*2,[]( mc::u64 i )
		{
			mc::Dec d( i ); int simple = d( 2 ); const QP& q = base[d( base.size( ) )]; int k = d( NCOMBO );
			if ( simple && q.m ) return;
			std::string nm; Options o = combo( k,&nm );
			check( q,4,simple!=0,&o,nm.c_str( ) );
		} );
		{	// numerical options, strictly convex QPs
			Space z; z.n=1; z.m=0; z.simple=true; z.H={{1},{2}}; z.g=vectors( 1,{-20,-2,0,1,20} ); z.vb=all; addNum( "NUM_B1",z );
			z.n=2; z.H={{2,-1,-1,2},{1,0,0,1},{2,1,1,1}}; z.g=vectors( 2,{-20,-1,0,8} ); z.vb=R( {0,1,2,3,4,5,8} ); addNum( "NUM_B2",z );
			z.simple=false; z.vb=R( {0,1,2,5} ); z.m=1; z.A={{1,1},{1,-2}}; z.cb=R( {0,1,2,3,5,8} ); addNum( "NUM_Q21",z );
			z.m=2; z.vb=T?R( {0,1,2,5} ):R( {0,2,5} ); z.cb=T?R( {0,1,5,8} ):R( {0,1,5} ); if ( !T ) z.g={{-20,8},{-1,8},{0,0}}; z.A={{1,1},{1,-2},{0,1}}; addNum( "NUM_Q22",z );
			z.n=3; z.m=1; z.H={{2,-1,0,-1,2,-1,0,-1,2},{1,0,0,0,1,0,0,0,1}}; z.g=vectors( 3,{-20,3} ); z.vb=R( {0,1,2} ); z.A={{1,1,1},{1,-1,0}}; z.cb=R( {0,2,5} ); addNum( "NUM_Q31",z );
		}
		Space s;
		// bound-constrained class
		s.n=1; s.m=0; s.simple=true; s.H=psdMatrices( 1,{0,1,2},{0} ); s.g=vectors( 1,{-2,-1,0,1,2} ); s.vb=all; add( "B1",s );
		s.n=2; s.H=psdMatrices( 2,{0,1,2},{-1,0,1} ); s.g=vectors( 2,{-2,-1,0,1,2} ); add( "B2",s );
		s.n=3; s.H=psdMatrices( 3,{0,1,2},{-1,0,1} ); s.g=vectors( 3,{-2,0,1} ); s.vb=R( {0,1,2,3,4,5} );
		if ( !T ) { s.g=vectors( 3,{-2,1} ); s.vb=R( {0,1,2,4} ); }
		add( "B3",s );
		// generally constrained class
		s.simple=false; s.n=1; s.m=0; s.H=psdMatrices( 1,{0,1,2},{0} ); s.g=vectors( 1,{-2,-1,0,1,2} ); s.vb=s.cb=all; add( "Q10",s );
		s.m=1; s.A=vectors( 1,{-1,0,1,2} ); add( "Q11",s );
		s.m=2; if ( !T ) { s.g=vectors( 1,{-2,0,1} ); s.vb=R( {0,1,2,4,5,7} ); s.cb=R( {0,1,2,3,8,5} ); } add( "Q12",s );
		s.n=2; s.m=0; s.A.clear( ); s.H=psdMatrices( 2,{0,1,2},{-1,0,1} ); s.g=vectors( 2,{-2,0,1} ); s.vb=s.cb=all; add( "Q20",s );
		s.m=1; s.A=vectors( 2,{-1,0,1,2} );
		if ( !T ) { s.A=vectors( 2,{-1,0,2} ); s.vb=R( {0,1,2,8,5} ); }
		add( "Q21",s );
		s.m=2; s.A=vectors( 2,{-1,0,1} ); s.g=vectors( 2,{-2,1} ); s.vb=s.cb=R( {0,1,2,4} );
		if ( !T ) { s.A=std::vector<std::vector<double> >{{1,1},{1,-1},{0,1},{-1,-1},{-1,0}}; s.vb=R( {0,1,2} ); s.cb=R( {0,8,5,2} ); }
		add( "Q22",s );
		s.n=3; s.m=1; s.A=vectors( 3,{-1,0,1} ); s.H=psdMatrices( 3,{0,1,2},{-1,0} ); s.g=vectors( 3,{-1,2} ); s.vb=R( {0,1,2} ); s.cb=R( {0,4,2,8} );
		if ( !T ) { s.A=std::vector<std::vector<double> >{{1,1,1},{1,-1,0},{0,1,2},{1,0,0},{-1,1,1}}; s.vb=R( {0,2} ); }
		add( "Q31",s );
		s.m=2; s.A=std::vector<std::vector<double> >{{1,1,1},{1,-1,0},{0,1,2},{1,0,0},{1,1,0}}; s.cb=R({0,9,5}); s.vb=R( {0,1,2} );
		if ( !T ) { s.H=std::vector<std::vector<double> >{{1,0,0,0,1,0,0,0,1},{2,-1,0,-1,2,-1,0,-1,2},{2,1,0,1,1,0,0,0,0},{0,0,0,0,0,0,0,0,0},{1,-1,0,-1,1,0,0,0,1}}; }
		add( "Q32",s );
		#if PROP==4
		{	// scaled linear objectives
			Space z; z.n=1; z.m=0; z.simple=false; z.H={{0}}; z.g=vectors( 1,{-1000,4} ); z.vb=R( {1,2,3} ); add( "LP1scale",z );
			z.n=2; z.H={{0,0,0,0},{1,0,0,0},{1,-1,-1,1}}; z.g={{0,-4},{1,-5}}; z.vb=R( {0,1} ); add( "Q20scale",z );
		}
		#endif
		if ( T )
		{
			// larger working sets and more constraints than variables
			s.n=2; s.m=3; s.H=psdMatrices( 2,{0,1,2},{-1,0} ); s.g=vectors( 2,{-2,1} ); s.A=std::vector<std::vector<double> >{{1,1},{1,-1},{0,1},{-1,-2}}; s.vb=R( {0,1,2} ); s.cb=R( {0,4,5} ); add( "Q23",s );
			s.n=4; s.m=1; s.H=std::vector<std::vector<double> >{{1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1},{2,-1,0,0,-1,2,-1,0,0,-1,2,-1,0,0,-1,2},{2,1,1,1,1,2,1,1,1,1,2,1,1,1,1,2},{1,0,0,0,0,1,0,0,0,0,0,0,0,0,0,2}};
			s.g=vectors( 4,{-2,1} ); s.A=vectors( 4,{0,1} ); s.vb=R( {0,2,4} ); s.cb=R( {0,4,5} ); add( "Q41",s );
			s.m=2; s.A=std::vector<std::vector<double> >{{1,1,1,1},{1,-1,0,0},{0,1,2,0},{1,0,0,0},{-1,-1,1,1}}; s.vb=R( {0,2} ); add( "Q42",s );
			s.m=3; s.A=std::vector<std::vector<double> >{{1,1,1,1},{1,-1,0,0},{0,1,2,0}}; s.cb=R( {0,5} ); add( "Q43",s );
		}
	} );
}
