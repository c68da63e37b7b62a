// C21: built-in replacements of the BLAS / LAPACK kernels the solver relies on.
#include "mc.hpp"
#include <qpOASES/Utils.hpp>
#include <qpOASES/LapackBlasReplacement.hpp>
USING_NAMESPACE_QPOASES
static const char* RULE = "xGEMM (double and single) is executed for every shape up to 3x3x3, both TRANSA, leading dimensions 0-2 larger than needed, every alpha and beta of a list, several fill patterns incl. NaN in C for beta=0, and compared with the defining sums in exact arithmetic; "
	"xPOTRF is executed on every symmetric integer matrix of order <=3 (thorough: 4) and checked against exact leading minors: success iff positive definite, U'U=A, index and value of the failing pivot, nothing else touched.";
extern "C" {
void DGEMM( const char*, const char*, const la_uint_t*, const la_uint_t*, const la_uint_t*, const double*, const double*, const la_uint_t*, const double*, const la_uint_t*, const double*, double*, const la_uint_t* );
void SGEMM( const char*, const char*, const la_uint_t*, const la_uint_t*, const la_uint_t*, const float*, const float*, const la_uint_t*, const float*, const la_uint_t*, const float*, float*, const la_uint_t* );
void DPOTRF( const char*, const la_uint_t*, double*, const la_uint_t*, la_int_t* );
void SPOTRF( const char*, const la_uint_t*, float*, const la_uint_t*, la_int_t* );
}
static const double AL[] = {1,-1,0,0.5,-2,3}, BE[] = {0,1,-1,2,-0.5};
static void gemm( bool t, la_uint_t m, la_uint_t n, la_uint_t k, double al, const double* A, la_uint_t la, const double* B, la_uint_t lb, double be, double* C, la_uint_t lc ) { DGEMM( t?"TRANS":"NOTRANS","NOTRANS",&m,&n,&k,&al,A,&la,B,&lb,&be,C,&lc ); }
static void gemm( bool t, la_uint_t m, la_uint_t n, la_uint_t k, double al, const float* A, la_uint_t la, const float* B, la_uint_t lb, double be, float* C, la_uint_t lc ) { float a=(float)al,b=(float)be; SGEMM( t?"T":"N","N",&m,&n,&k,&a,A,&la,B,&lb,&b,C,&lc ); }
static void potrf( la_uint_t n, double* a, la_uint_t l, la_int_t* i ) { DPOTRF( "U",&n,a,&l,i ); }
static void potrf( la_uint_t n, float* a, la_uint_t l, la_int_t* i ) { SPOTRF( "U",&n,a,&l,i ); }
template<class R> static void gemmCase( mc::u64 i )
{
	mc::Dec d( i ); int m=d( 4 ),n=d( 4 ),k=d( 4 ); bool t=d( 2 ); int pa=d( 3 ),pb=d( 3 ),pc=d( 3 ); double al=AL[d( 6 )],be=BE[d( 5 )]; int fill=d( 4 );
	mc::key( mc::fmt( "gemm %s m%d n%d k%d trans%d pads %d%d%d alpha %g beta %g fill%d",sizeof(R)==8?"double":"single",m,n,k,t,pa,pb,pc,al,be,fill ) );
	int la=( t?k:m )+pa, lb=k+pb, lc=m+pc, ca=t?m:k; if ( la<1 ) la=1; if ( lb<1 ) lb=1; if ( lc<1 ) lc=1;
	std::vector<R> A( la*ca+1,(R)99 ),B( lb*n+1,(R)98 ),C( lc*n+1,(R)97 );
	// distinct values per position; pattern 1: zeros inside, 2: negative, 3: NaN in C
	for( int c=0; c<ca; ++c ) for( int r=0; r<( t?k:m ); ++r ) A[r+la*c] = (R)( ( fill==1 && (r+c)%2 ) ? 0 : ( fill==2?-1:1 )*( 1+r+4*c ) );
	for( int c=0; c<n; ++c ) for( int r=0; r<k; ++r ) B[r+lb*c] = (R)( ( fill==1 && (r+c)%2==0 ) ? 0 : 2+3*r+5*c );
	for( int c=0; c<n; ++c ) for( int r=0; r<m; ++r ) C[r+lc*c] = (R)( fill==3 ? ( be==0 ? NAN : -5 ) : 7+r+11*c );
	std::vector<R> A0=A,B0=B,C0=C;
	gemm( t,m,n,k,al,A.data( ),la,B.data( ),lb,be,C.data( ),lc );
	mc::evaluation( ); mc::transition( );
	if ( memcmp( A.data( ),A0.data( ),A.size( )*sizeof(R) ) || memcmp( B.data( ),B0.data( ),B.size( )*sizeof(R) ) ) { mc::fail( "gemm-input","an input matrix was modified" ); return; }
	std::string o;
	for( int c=0; c<n; ++c ) for( int r=0; r<lc; ++r )
	{
		double e;
		if ( r>=m ) e=97; else { double s=0; for( int l=0; l<k; ++l ) s += ( t ? A[l+la*r] : A[r+la*l] )*B[l+lb*c]; e = al*s + ( be==0 ? 0 : be*C0[r+lc*c] ); }
		if ( !( (double)C[r+lc*c]==e ) ) { mc::fail( "gemm",mc::fmt( "C(%d,%d) is %g, exact %g",r,c,(double)C[r+lc*c],e ) ); return; }
		o += mc::fmt( "%g ",e );
	}
	if ( C[lc*n]!=(R)97 && n>0 ) mc::fail( "gemm-overrun","wrote behind C" );
	mc::outcome( o );
}
static double minorDet( const std::vector<int>& M, int n, int k )   // leading minor by fraction-free elimination
{
	std::vector<long long> a( k*k ); for( int i=0; i<k; ++i ) for( int j=0; j<k; ++j ) a[i*k+j]=M[i*n+j];
	long long prev=1; int sign=1;
	for( int p=0; p<k-1; ++p )
	{
		if ( a[p*k+p]==0 ) { int q=p+1; while( q<k && a[q*k+p]==0 ) ++q; if ( q==k ) return 0; for( int j=0; j<k; ++j ) std::swap( a[p*k+j],a[q*k+j] ); sign=-sign; }
		for( int i=p+1; i<k; ++i ) for( int j=p+1; j<k; ++j ) a[i*k+j] = ( a[i*k+j]*a[p*k+p]-a[i*k+p]*a[p*k+j] )/prev;
		prev=a[p*k+p];
	}
	return (double)( sign*a[k*k-1] );
}
template<class R> static void potrfCase( int n, int pad, const std::vector<int>& M, bool nullInfo )
{
	const double eps = sizeof(R)==8 ? 1e-12 : 1e-4;
	int ld=n+pad; std::vector<R> a( ld*n+1,(R)55 );
	for( int c=0; c<n; ++c ) for( int r=0; r<=c; ++r ) a[r+ld*c]=(R)M[r*n+c];
	for( int c=0; c<n; ++c ) for( int r=c+1; r<n; ++r ) a[r+ld*c]=(R)-1000;          // strictly lower part: must not be read or written
	la_int_t info=-77; potrf( n,a.data( ),ld,nullInfo?0:&info );
	mc::evaluation( ); mc::transition( );
	int fail=0; double piv=0,prev=1; bool fuzzy=false;
	for( int k=1; k<=n && !fail; ++k ) { double dk=minorDet( M,n,k ); piv=dk/prev; if ( dk<0 ) fail=k; else if ( dk==0 ) { fail=k; if ( k>1 ) fuzzy=true; } prev=dk; }
	mc::outcome( mc::fmt( "potrf %d %d ",n,fail ) + mc::fmt( "%g",piv ) );
	for( int c=0; c<n; ++c ) for( int r=c+1; r<ld; ++r ) if ( a[r+ld*c]!=(R)( r<n?-1000:55 ) ) { mc::fail( "potrf-touch",mc::fmt( "entry (%d,%d) outside the upper triangle changed to %g",r,c,(double)a[r+ld*c] ) ); return; }
	if ( a[ld*n]!=(R)55 ) mc::fail( "potrf-overrun","wrote behind the matrix" );
	if ( nullInfo ) return;
	if ( fuzzy && info==0 ) return;               // singular up to round-off
	if ( fuzzy && info>fail ) return;
	if ( (int)info!=fail ) { mc::fail( "potrf-info",mc::fmt( "info %d, first non-positive leading minor %d",(int)info,fail ) ); return; }
	if ( fail )
	{
		if ( !( fabs( (double)a[0]-piv ) <= eps*( 1+fabs( piv ) )*10 ) ) mc::fail( "potrf-pivot",mc::fmt( "failing pivot reported as %g, exact %g",(double)a[0],piv ) );
		return;
	}
	for( int r=0; r<n; ++r ) for( int c=r; c<n; ++c ) { double s=0; for( int k=0; k<=r; ++k ) s+=(double)a[k+ld*r]*a[k+ld*c]; if ( !( fabs( s-M[r*n+c] )<=eps*( 1+abs( M[r*n+c] ) ) ) ) { mc::fail( "potrf-factor",mc::fmt( "U'U(%d,%d) is %g, matrix has %d",r,c,s,M[r*n+c] ) ); return; } }
	for( int r=0; r<n; ++r ) if ( !( a[r+ld*r]>0 ) ) mc::fail( "potrf-sign","diagonal of factor not positive" );
}
static void setup( )
{
	mc::addSection( "dgemm",(mc::u64)64*2*27*30*4,gemmCase<double> );
	mc::addSection( "sgemm",(mc::u64)64*2*27*30*4,gemmCase<float> );
	for( int n=1; n<=( mc::thorough?5:3 ); ++n )
	{
		int diag = n==5 ? 2 : n==4 ? 4 : 7, off = n>=4 ? 3 : 5; mc::u64 tot=1; for( int i=0; i<n; ++i ) tot*=diag; for( int i=0; i<n*(n-1)/2; ++i ) tot*=off;
		mc::addSection( mc::fmt( "potrf%d",n ),tot*3,[=]( mc::u64 i ) {
			mc::Dec d( i ); int pad=d( 3 ); std::vector<int> M( n*n );
			static const int DV7[]={2,1,4,0,9,3,-1}, DV4[]={2,3,1,5}, OV5[]={0,1,-1,2,-3}, OV3[]={0,1,-2};
			for( int k=0; k<n; ++k ) M[k*n+k] = n==5?DV4[d( 2 )]:n==4?DV4[d( 4 )]:DV7[d( 7 )];
			for( int r=0; r<n; ++r ) for( int c=r+1; c<n; ++c ) M[r*n+c]=M[c*n+r]= n>=4?OV3[d( 3 )]:OV5[d( 5 )];
			std::string s; for( int x : M ) s+=mc::fmt( "%d,",x ); mc::key( mc::fmt( "potrf n%d pad%d ",n,pad )+s );
			potrfCase<double>( n,pad,M,false ); potrfCase<float>( n,pad,M,false ); potrfCase<double>( n,pad,M,true );
		} );
	}
}
int main( int argc, char** argv ) { return mc::main( argc,argv,"C21",RULE,setup ); }
