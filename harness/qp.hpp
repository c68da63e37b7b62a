// qp.hpp - small integer QPs, exact (Fourier-Motzkin, integer arithmetic) classification and
//          an independent KKT oracle.  Nothing here calls qpOASES except for the type names.
#pragma once
#include "mc.hpp"
#include <qpOASES.hpp>
USING_NAMESPACE_QPOASES

static const double INF = 1.0e20;
enum { NMAX = 4, MMAX = 4 };

struct QP
{
	int n, m;
	double H[NMAX*NMAX];  // row-major n x n
	double g[NMAX];
	double A[MMAX*NMAX];  // row-major m x n
	double lb[NMAX], ub[NMAX], lbA[MMAX], ubA[MMAX];
	QP( ) { memset( this,0,sizeof(*this) ); }
};

inline std::string num( double d )
{
	if ( d >= INF ) return "inf";
	if ( d <= -INF ) return "-inf";
	return mc::fmt( "%.10g",d );
}
inline std::string vec( const double* v, int n )
{
	std::string s = "[";
	for( int i=0; i<n; ++i ) s += ( i ? "," : "" ) + num( v[i] );
	return s + "]";
}
inline std::string show( const QP& q )
{
	return mc::fmt( "n=%d m=%d H=",q.n,q.m ) + vec( q.H,q.n*q.n ) + " g=" + vec( q.g,q.n ) + ( q.m ? " A=" + vec( q.A,q.n*q.m ) : std::string( "" ) )
		+ " lb=" + vec( q.lb,q.n ) + " ub=" + vec( q.ub,q.n ) + ( q.m ? " lbA=" + vec( q.lbA,q.m ) + " ubA=" + vec( q.ubA,q.m ) : std::string( "" ) );
}

// ---------------------------------------------------------------- exact feasibility
struct Ineq { long long a[NMAX]; long long b; };   // a'x <= b
inline long long gcdll( long long a, long long b ) { if ( a<0 ) a=-a; if ( b<0 ) b=-b; while( b ) { long long t=a%b; a=b; b=t; } return a; }
inline void normIneq( Ineq& q, int n )
{
	long long g = q.b;
	for( int i=0; i<n; ++i ) g = gcdll( g,q.a[i] );
	if ( g > 1 ) { q.b/=g; for( int i=0; i<n; ++i ) q.a[i]/=g; }
}
inline bool fmFeasible( std::vector<Ineq> c, int n )
{
	for( int k=n-1; k>=0; --k )
	{
		std::vector<Ineq> z,p,m,nx;
		for( auto& q : c ) ( q.a[k]==0 ? z : q.a[k]>0 ? p : m ).push_back( q );
		nx = z;
		for( auto& x : p ) for( auto& y : m )
		{
			Ineq r; long long cx = -y.a[k], cy = x.a[k];
			for( int i=0; i<NMAX; ++i ) r.a[i] = i<n ? cx*x.a[i] + cy*y.a[i] : 0;
			r.b = cx*x.b + cy*y.b;
			normIneq( r,n );
			nx.push_back( r );
		}
		std::sort( nx.begin( ),nx.end( ),[n]( const Ineq& u,const Ineq& v ) { for( int i=0;i<n;++i ) if ( u.a[i]!=v.a[i] ) return u.a[i]<v.a[i]; return u.b<v.b; } );
		std::vector<Ineq> d;
		for( auto& q : nx )
		{
			bool same = !d.empty( );
			if ( same ) for( int i=0; i<n; ++i ) if ( d.back( ).a[i]!=q.a[i] ) same = false;
			if ( !same ) d.push_back( q );
		}
		c = d;
	}
	for( auto& q : c ) if ( q.b < 0 ) return false;
	return true;
}
// data are assumed to be integer multiples of 1/scale
inline void pushRow( std::vector<Ineq>& c, const double* a, int n, double b, int sgn, double scale )
{
	Ineq q; memset( &q,0,sizeof(q) );
	for( int i=0; i<n; ++i ) q.a[i] = sgn*(long long)llround( a[i]*scale );
	q.b = sgn*(long long)llround( b*scale );
	c.push_back( q );
}
inline void polyhedron( const QP& q, std::vector<Ineq>& c, bool recession, double sc = 4.0 )
{
	for( int i=0; i<q.n; ++i )
	{
		double e[NMAX] = {0}; e[i] = 1.0;
		if ( q.lb[i] > -INF ) pushRow( c,e,q.n,recession?0.0:q.lb[i],-1,sc );
		if ( q.ub[i] <  INF ) pushRow( c,e,q.n,recession?0.0:q.ub[i], 1,sc );
	}
	for( int i=0; i<q.m; ++i )
	{
		if ( q.lbA[i] > -INF ) pushRow( c,&q.A[i*q.n],q.n,recession?0.0:q.lbA[i],-1,sc );
		if ( q.ubA[i] <  INF ) pushRow( c,&q.A[i*q.n],q.n,recession?0.0:q.ubA[i], 1,sc );
	}
}
inline bool isFeasible( const QP& q ) { std::vector<Ineq> c; polyhedron( q,c,false ); return fmFeasible( c,q.n ); }
// Is there a point that satisfies every inequality with slack, and are the equality rows linearly independent?
// (data integer multiples of 1/4: slack eps on every inequality is tested with a tiny rational eps)
inline bool isRegular( const QP& q )
{
	std::vector<Ineq> c; std::vector<std::vector<double> > eq;
	const double SC = 4000.0, eps = 0.001;
	for( int i=0; i<q.n+q.m; ++i )
	{
		double a[NMAX]={0}; if ( i<q.n ) a[i]=1; else for( int j=0; j<q.n; ++j ) a[j]=q.A[(i-q.n)*q.n+j];
		double l = i<q.n?q.lb[i]:q.lbA[i-q.n], u = i<q.n?q.ub[i]:q.ubA[i-q.n];
		bool zero = true; for( int j=0; j<q.n; ++j ) if ( a[j]!=0 ) zero = false;
		if ( l==u ) { if ( zero ) return false; pushRow( c,a,q.n,l,-1,SC ); pushRow( c,a,q.n,u,1,SC ); eq.push_back( std::vector<double>( a,a+q.n ) ); continue; }
		if ( l > -INF ) pushRow( c,a,q.n,l+eps,-1,SC );
		if ( u <  INF ) pushRow( c,a,q.n,u-eps, 1,SC );
	}
	if ( !fmFeasible( c,q.n ) ) return false;
	size_t r=0;   // rank of the equality rows
	for( int j=0; j<q.n && r<eq.size( ); ++j )
	{
		size_t p=r; while( p<eq.size( ) && fabs( eq[p][j] )<1e-9 ) ++p; if ( p==eq.size( ) ) continue;
		std::swap( eq[p],eq[r] );
		for( size_t k=r+1; k<eq.size( ); ++k ) { double f=eq[k][j]/eq[r][j]; for( int i=0; i<q.n; ++i ) eq[k][i]-=f*eq[r][i]; }
		++r;
	}
	return r==eq.size( );
}
// q feasible and H positive semidefinite assumed
inline bool isUnboundedConvex( const QP& q )
{
	std::vector<Ineq> c; polyhedron( q,c,true );
	for( int i=0; i<q.n; ++i ) { pushRow( c,&q.H[i*q.n],q.n,0.0,1,4.0 ); pushRow( c,&q.H[i*q.n],q.n,0.0,-1,4.0 ); }
	pushRow( c,q.g,q.n,-1.0,1,4.0 );
	return fmFeasible( c,q.n );
}
// solution set of a solvable convex QP bounded?  (no nonzero d with Hd=0, g'd<=0, d in recession cone)
inline bool hasCompactSolutionSet( const QP& q )
{
	std::vector<Ineq> base; polyhedron( q,base,true );
	for( int i=0; i<q.n; ++i ) { pushRow( base,&q.H[i*q.n],q.n,0.0,1,4.0 ); pushRow( base,&q.H[i*q.n],q.n,0.0,-1,4.0 ); }
	pushRow( base,q.g,q.n,0.0,1,4.0 );
	for( int i=0; i<q.n; ++i )
		for( int s=-1; s<=1; s+=2 )
		{
			std::vector<Ineq> c = base; double e[NMAX] = {0}; e[i] = -s;
			pushRow( c,e,q.n,-1.0,1,4.0 );   // s*d_i >= 1
			if ( fmFeasible( c,q.n ) ) return false;
		}
	return true;
}
inline bool boxed( const QP& q ) { for( int i=0; i<q.n; ++i ) if ( q.lb[i]<=-INF || q.ub[i]>=INF ) return false; return true; }
// unbounded along a coordinate direction that no constraint restricts
inline bool hasCoordinateRay( const QP& q )
{
	for( int i=0; i<q.n; ++i )
	{
		if ( q.g[i]==0 || ( q.g[i]<0 ? q.ub[i]<INF : q.lb[i]>-INF ) ) continue;
		bool ok = true;
		for( int j=0; j<q.n; ++j ) if ( q.H[i*q.n+j]!=0 ) ok = false;
		for( int j=0; j<q.m; ++j ) if ( q.A[j*q.n+i]!=0 ) ok = false;
		if ( ok ) return true;
	}
	return false;
}
inline double det( const double* M, int n )
{
	if ( n==0 ) return 1;
	if ( n==1 ) return M[0];
	if ( n==2 ) return M[0]*M[3]-M[1]*M[2];
	double s = 0, sub[NMAX*NMAX];
	for( int c=0; c<n; ++c )
	{
		int k=0;
		for( int i=1; i<n; ++i ) for( int j=0; j<n; ++j ) if ( j!=c ) sub[k++] = M[i*n+j];
		s += ( (c&1)?-1.0:1.0 ) * M[c] * det( sub,n-1 );
	}
	return s;
}
// exact for small integer matrices: all principal minors >= 0
inline bool isPSD( const double* M, int n )
{
	for( int mask=1; mask<(1<<n); ++mask )
	{
		double sub[NMAX*NMAX]; int k=0,sz=__builtin_popcount( mask );
		for( int i=0; i<n; ++i ) for( int j=0; j<n; ++j ) if ( (mask>>i&1) && (mask>>j&1) ) sub[k++]=M[i*n+j];
		if ( det( sub,sz ) < -1e-9 ) return false;
	}
	return true;
}
inline bool isPD( const double* M, int n )
{
	for( int k=1; k<=n; ++k )
	{
		double sub[NMAX*NMAX]; int c=0;
		for( int i=0; i<k; ++i ) for( int j=0; j<k; ++j ) sub[c++]=M[i*n+j];
		if ( det( sub,k ) < 1e-9 ) return false;
	}
	return true;
}

enum Verdict { FEASIBLE_BOUNDED, INFEASIBLE, UNBOUNDED };
inline Verdict classify( const QP& q ) { if ( !isFeasible( q ) ) return INFEASIBLE; return isUnboundedConvex( q ) ? UNBOUNDED : FEASIBLE_BOUNDED; }

// ---------------------------------------------------------------- KKT oracle
// y = [ bound multipliers (n); constraint multipliers (m) ];  H x + g = y_b + A' y_c
struct Kkt { double stat, feas, cmpl; double worst( ) const { return std::max( stat,std::max( feas,cmpl ) ); } };
inline Kkt kkt( const QP& q, const double* x, const double* y )
{
	Kkt k = {0,0,0};
	for( int i=0; i<q.n+q.m; ++i ) if ( !std::isfinite( y[i] ) ) { k.stat = HUGE_VAL; return k; }
	for( int i=0; i<q.n; ++i ) if ( !std::isfinite( x[i] ) ) { k.feas = HUGE_VAL; return k; }
	for( int i=0; i<q.n; ++i )
	{
		double r = q.g[i] - y[i];
		for( int j=0; j<q.n; ++j ) r += q.H[i*q.n+j]*x[j];
		for( int j=0; j<q.m; ++j ) r -= q.A[j*q.n+i]*y[q.n+j];
		k.stat = std::max( k.stat,fabs( r ) );
	}
	for( int i=0; i<q.n+q.m; ++i )
	{
		double v = 0, l = i<q.n ? q.lb[i] : q.lbA[i-q.n], u = i<q.n ? q.ub[i] : q.ubA[i-q.n];
		if ( i<q.n ) v = x[i]; else for( int j=0; j<q.n; ++j ) v += q.A[(i-q.n)*q.n+j]*x[j];
		if ( l > -INF ) k.feas = std::max( k.feas,l-v );
		if ( u <  INF ) k.feas = std::max( k.feas,v-u );
		// sign / complementarity: y>0 -> at lower, y<0 -> at upper
		if ( y[i] > 0 ) k.cmpl = std::max( k.cmpl, l > -INF ? std::min( y[i],fabs( v-l ) ) : y[i] );
		if ( y[i] < 0 ) k.cmpl = std::max( k.cmpl, u <  INF ? std::min( -y[i],fabs( v-u ) ) : -y[i] );
	}
	return k;
}
inline double objective( const QP& q, const double* x )
{
	double o = 0;
	for( int i=0; i<q.n; ++i ) { o += q.g[i]*x[i]; for( int j=0; j<q.n; ++j ) o += 0.5*x[i]*q.H[i*q.n+j]*x[j]; }
	return o;
}

// ---------------------------------------------------------------- options
enum { NOPT = 4 };
inline Options preset( int k )
{
	Options o;
	switch( k )
	{
		case 0: o.setToDefault( ); break;
		case 1: o.setToReliable( ); break;
		case 2: o.setToMPC( ); break;
		case 3: o.setToFast( ); break;
	}
	o.printLevel = PL_NONE;
	return o;
}
inline const char* presetName( int k ) { static const char* n[] = { "default","reliable","MPC","fast" }; return n[k]; }

// every combination of the algorithmic switches
enum { NCOMBO = 128*3*3*3 };
inline Options combo( int k, std::string* name = 0 )
{
	mc::Dec d( k ); Options o; o.setToDefault( );
	int v[10];
	for( int i=0; i<7; ++i ) v[i] = d( 2 );
	v[7]=d( 3 ); v[8]=d( 3 ); v[9]=d( 3 );
	#define OB( i ) ( v[i] ? BT_TRUE : BT_FALSE )
	o.enableRamping = OB( 0 ); o.enableFarBounds = OB( 1 ); o.enableFlippingBounds = OB( 2 );
	o.enableRegularisation = OB( 3 ); o.numRegularisationSteps = v[3]; o.enableFullLITests = OB( 4 );
	o.enableNZCTests = OB( 5 ); o.enableEqualities = OB( 6 );
	#undef OB
	o.enableDriftCorrection = v[7]; o.enableCholeskyRefactorisation = v[8];
	o.initialStatusBounds = v[9]==0 ? ST_LOWER : v[9]==1 ? ST_INACTIVE : ST_UPPER;
	o.printLevel = PL_NONE;
	if ( name ) *name = mc::fmt( "opt[ramp%d far%d flip%d reg%d fullLI%d nzc%d eq%d drift%d chol%d init%d]",v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9] );
	return o;
}

// ---------------------------------------------------------------- alphabets
struct Range { double l,u; };
static const Range RANGES[] = { {-1,1},{-INF,INF},{0,INF},{-INF,1},{0,0},{1,2},{-2,-1},{1,-1},{-1,-1},{1.5,1.5},{-1e30,1e30} };

// all symmetric positive semidefinite n x n matrices with diagonal in diagVals and off-diagonal in offVals
inline std::vector<std::vector<double> > psdMatrices( int n, std::vector<int> diag, std::vector<int> off, bool pdOnly = false )
{
	std::vector<std::vector<double> > r;
	int no = n*(n-1)/2; mc::u64 tot = 1;
	for( int i=0; i<n; ++i ) tot *= diag.size( );
	for( int i=0; i<no; ++i ) tot *= off.size( );
	for( mc::u64 c=0; c<tot; ++c )
	{
		mc::Dec d( c ); std::vector<double> M( n*n,0.0 );
		for( int i=0; i<n; ++i ) M[i*n+i] = diag[d( diag.size( ) )];
		for( int i=0; i<n; ++i ) for( int j=i+1; j<n; ++j ) M[i*n+j] = M[j*n+i] = off[d( off.size( ) )];
		if ( pdOnly ? isPD( M.data( ),n ) : isPSD( M.data( ),n ) ) r.push_back( M );
	}
	return r;
}
inline std::vector<std::vector<double> > vectors( int n, std::vector<int> vals, bool nonzero = false )
{
	std::vector<std::vector<double> > r; mc::u64 tot=1;
	for( int i=0; i<n; ++i ) tot *= vals.size( );
	for( mc::u64 c=0; c<tot; ++c )
	{
		mc::Dec d( c ); std::vector<double> v( n ); bool nz=false;
		for( int i=0; i<n; ++i ) { v[i] = vals[d( vals.size( ) )]; if ( v[i]!=0 ) nz = true; }
		if ( nz || !nonzero ) r.push_back( v );
	}
	return r;
}
