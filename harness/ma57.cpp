// Stand-ins for the routines an installation with the sparse Schur complement solver has to provide: MA57 (dense Bunch-Parlett LDL^T with rank
// detection) and the LAPACK routines DTRTRS and DTRCON.  Accurate for the tiny systems explored here.
#include <qpOASES/Types.hpp>
#include <math.h>
#include <string.h>
#include <vector>
#include <algorithm>
typedef REFER_NAMESPACE_QPOASES fint_t fi;
typedef ::la_uint_t lu;
typedef ::la_int_t li;
long ma57Factorisations = 0, ma57Solves = 0, ma57Singular = 0, ma57Bad = 0, ma57Calls = 0, ma57FailAt = 0, ma57Failed = 0;
extern "C" {
void ma57id_( double* cntl, fi* icntl ) { for( int i=0; i<5; ++i ) cntl[i]=0; for( int i=0; i<20; ++i ) icntl[i]=0; cntl[0]=0.01; cntl[1]=1e-20; }
void ma57ad_( fi* n, fi* ne, const fi* irn, const fi* jcn, fi* lkeep, fi* keep, fi* iwork, fi* icntl, fi* info, double* rinfo )
{
	for( int i=0; i<40; ++i ) info[i]=0; for( int i=0; i<20; ++i ) rinfo[i]=0;
	if ( ++ma57Calls==ma57FailAt ) { ++ma57Failed; info[0]=-3; return; } // injected failure of the symbolic phase
	for( fi k=0; k<*ne; ++k ) if ( irn[k]<1 || irn[k]>*n || jcn[k]<1 || jcn[k]>*n ) { ++ma57Bad; info[0]=1; }
	for( fi k=0; k<*lkeep; ++k ) keep[k]=k; for( fi k=0; k<5 * *n; ++k ) iwork[k]=0;
	// keep the pattern for the numerical phase
	keep[0]=*ne; for( fi k=0; k<*ne; ++k ) { keep[1+2*k]=irn[k]; keep[2+2*k]=jcn[k]; }
	info[8]=*n * *n + 2 * *n + 4; info[9]=8 + 3 * *n;
	(void)icntl;
}
void ma57bd_( fi* np, fi* ne, double* a, double* fact, fi* lfact, fi* ifact, fi* lifact, fi* lkeep, fi* keep, fi* iwork, fi* icntl, double* cntl, fi* info, double* rinfo )
{
	++ma57Factorisations; const int n=(int)*np; std::vector<double> M( n*n,0.0 ); (void)lkeep; (void)icntl; (void)cntl;
	for( int i=0; i<40; ++i ) info[i]=0; for( int i=0; i<20; ++i ) rinfo[i]=0; for( int i=0; i<n; ++i ) iwork[i]=0;
	if ( ++ma57Calls==ma57FailAt ) { ++ma57Failed; for( fi i=0; i<*lfact; ++i ) fact[i]=7; for( fi i=0; i<*lifact; ++i ) ifact[i]=7; info[0]=-10; return; } // injected failure: the output arrays contain anything
	for( fi k=0; k<*ne; ++k ) { int r=(int)keep[1+2*k]-1,c=(int)keep[2+2*k]-1; M[r*n+c]+=a[k]; if ( r!=c ) M[c*n+r]+=a[k]; }
	double big=0; for( double v : M ) { if ( !( fabs( v )<1e300 ) ) ++ma57Bad; big=std::max( big,fabs( v ) ); }
	std::vector<int> p( n ); for( int i=0; i<n; ++i ) p[i]=i;
	std::vector<int> blk( n,0 ); int neg=0,k=0; const double tol=1e-13*std::max( big,1e-300 )*n;
	auto swp = [&]( int i, int j ) { if ( i==j ) return; std::swap( p[i],p[j] ); for( int c=0; c<n; ++c ) std::swap( M[i*n+c],M[j*n+c] ); for( int r=0; r<n; ++r ) std::swap( M[r*n+i],M[r*n+j] ); };
	while( k<n )
	{
		int d=k,r=k,s=k; double md=-1,mo=-1;
		for( int i=k; i<n; ++i ) { if ( fabs( M[i*n+i] )>md ) { md=fabs( M[i*n+i] ); d=i; } for( int j=k; j<i; ++j ) if ( fabs( M[i*n+j] )>mo ) { mo=fabs( M[i*n+j] ); r=i; s=j; } }
		if ( std::max( md,mo )<=tol ) break;
		if ( md>=0.6404*mo )
		{
			swp( k,d ); double piv=M[k*n+k]; if ( piv<0 ) ++neg; blk[k]=1;
			for( int i=k+1; i<n; ++i ) { double l=M[i*n+k]/piv; for( int j=k+1; j<=i; ++j ) { M[i*n+j]-=l*M[k*n+j]; M[j*n+i]=M[i*n+j]; } }
			for( int i=k+1; i<n; ++i ) M[i*n+k]/=piv;
			for( int i=k+1; i<n; ++i ) M[k*n+i]=0;
			++k;
		}
		else
		{
			swp( k,s ); if ( r==k ) r=s; swp( k+1,r ); double A=M[k*n+k],B=M[( k+1 )*n+k],C=M[( k+1 )*n+k+1],D=A*C-B*B; blk[k]=2; blk[k+1]=0;
			if ( D<0 ) ++neg; else if ( A+C<0 ) neg+=2;
			std::vector<double> L( 2*n ); for( int i=k+2; i<n; ++i ) { double x=M[i*n+k],y=M[i*n+k+1]; L[2*i]=( x*C-y*B )/D; L[2*i+1]=( y*A-x*B )/D; }
			for( int i=k+2; i<n; ++i ) for( int j=k+2; j<=i; ++j ) { M[i*n+j]-=L[2*i]*M[j*n+k]+L[2*i+1]*M[j*n+k+1]; M[j*n+i]=M[i*n+j]; }
			for( int i=k+2; i<n; ++i ) { M[i*n+k]=L[2*i]; M[i*n+k+1]=L[2*i+1]; M[k*n+i]=M[( k+1 )*n+i]=0; }
			k+=2;
		}
	}
	info[23]=neg; info[24]=k; if ( k<n ) { info[0]=4; ++ma57Singular; }
	if ( *lfact < n*n+n || *lifact < 5+2*n ) { info[0]=-3; return; }
	for( int i=0; i<n*n; ++i ) fact[i]=M[i];
	ifact[0]=ifact[1]=0; ifact[2]=1; ifact[3]=n; ifact[4]=n; for( int i=0; i<n; ++i ) { ifact[5+i]=p[i]+1; ifact[5+n+i]=blk[i]; }
}
void ma57cd_( fi* job, fi* np, double* fact, fi* lfact, fi* ifact, fi* lifact, fi* nrhs, double* rhs, fi* lrhs, double* work, fi* lwork, fi* iwork, fi* icntl, fi* info )
{
	++ma57Solves; const int n=(int)*np; (void)job; (void)lfact; (void)lifact; (void)lwork; (void)icntl; for( int i=0; i<40; ++i ) info[i]=0; for( int i=0; i<n; ++i ) iwork[i]=0;
	for( int c=0; c<*nrhs; ++c )
	{
		double* b=rhs + c * *lrhs; for( int i=0; i<n; ++i ) work[i]=b[ifact[5+i]-1];
		auto blk = [&]( int i ) { return (int)ifact[5+n+i]; };
		for( int k=0; k<n; ) { int w=std::max( 1,blk( k ) ); for( int i=k+w; i<n; ++i ) for( int q=0; q<w; ++q ) work[i]-=fact[i*n+k+q]*work[k+q]; k+=w; }
		for( int k=0; k<n; ) { if ( blk( k )==2 ) { double A=fact[k*n+k],B=fact[( k+1 )*n+k],C=fact[( k+1 )*n+k+1],D=A*C-B*B,x=work[k],y=work[k+1]; work[k]=( C*x-B*y )/D; work[k+1]=( A*y-B*x )/D; k+=2; } else { work[k]/=fact[k*n+k]; ++k; } }
		for( int k=n-1; k>=0; --k ) { int k0=k; if ( blk( k )==0 && k>0 && blk( k-1 )==2 ) k0=k-1; int w=k-k0+1; for( int q=0; q<w; ++q ) for( int i=k+1; i<n; ++i ) work[k0+q]-=fact[i*n+k0+q]*work[i]; k=k0; }
		for( int i=0; i<n; ++i ) b[ifact[5+i]-1]=work[i];
	}
}
void dtrtrs_( const char* U, const char* T, const char* D, const lu* N, const lu* NRHS, double* A, const lu* LDA, double* B, const lu* LDB, li* INFO )
{
	const int n=(int)*N; *INFO=0; if ( *U!='U' || *T!='N' || *D!='N' || *LDA<*N || *LDB<*N ) { *INFO=-1; ++ma57Bad; return; }
	for( int i=0; i<n; ++i ) if ( A[i+i * *LDA]==0 ) { *INFO=i+1; return; }
	for( lu c=0; c<*NRHS; ++c ) for( int i=n-1; i>=0; --i ) { double s=B[i+c * *LDB]; for( int j=i+1; j<n; ++j ) s-=A[i+j * *LDA]*B[j+c * *LDB]; B[i+c * *LDB]=s/A[i+i * *LDA]; }
}
void dtrcon_( const char* NO, const char* U, const char* D, const lu* N, double* A, const lu* LDA, double* RCOND, double* W, const lu* IW, li* INFO )
{
	const int n=(int)*N; *INFO=0; (void)NO; (void)W; (void)IW; if ( *U!='U' || *D!='N' || *LDA<*N ) { *INFO=-1; ++ma57Bad; return; }
	*RCOND=0; if ( n==0 ) { *RCOND=1; return; }
	double an=0,in=0; for( int i=0; i<n; ++i ) if ( A[i+i * *LDA]==0 ) return;
	for( int j=0; j<n; ++j ) { double s=0; for( int i=0; i<=j; ++i ) s+=fabs( A[i+j * *LDA] ); an=std::max( an,s ); }
	std::vector<double> x( n ); for( int j=0; j<n; ++j ) { for( int i=0; i<n; ++i ) x[i]=i==j; double s=0; for( int i=j; i>=0; --i ) { double t=x[i]; for( int k=i+1; k<=j; ++k ) t-=A[i+k * *LDA]*x[k]; x[i]=t/A[i+i * *LDA]; s+=fabs( x[i] ); } in=std::max( in,s ); }
	if ( an>0 && in>0 ) *RCOND=1/an/in;
}
}
