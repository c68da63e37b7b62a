// C20: every matrix class performs every operation exactly as the dense matrix it represents
#include "mc.hpp"
#include <qpOASES.hpp>
#include <memory>
USING_NAMESPACE_QPOASES
static const char* RULE =
	"All matrices over a small value alphabet (all zero patterns) x every storage class (dense, dense with padding, symmetric dense, compressed column/row built from dense or from raw arrays, symmetric sparse, and duplicates of each) "
	"x every operation with every ordered row/column index list, scalar factor, number of right-hand sides, leading dimension and storage mode; the result is compared entry by entry with a reference computed from the plain dense array, "
	"sentinels around every output must survive.  states = distinct (matrix, class) objects, transitions = operations executed.";
typedef std::vector<double> V;
struct Rep { std::string nm; std::unique_ptr<Matrix> m; SymmetricMatrix* sym; V own; std::vector<sparse_int_t> ia,ja; V va; V ref; };  // ref: row-major m x n
enum { NREP = 18 };
static void csc( Rep& r, const V& D, int m, int n, bool diag ) { r.ja.push_back( 0 ); for( int j=0; j<n; ++j ) { for( int i=0; i<m; ++i ) if ( D[i*n+j]!=0 || ( diag && i==j ) ) { r.ia.push_back( i ); r.va.push_back( D[i*n+j] ); } r.ja.push_back( r.ia.size( ) ); } r.ia.push_back( 77 ); r.va.push_back( 77 ); }
static void csr( Rep& r, const V& D, int m, int n, bool diag ) { r.ja.push_back( 0 ); for( int i=0; i<m; ++i ) { for( int j=0; j<n; ++j ) if ( D[i*n+j]!=0 || ( diag && i==j ) ) { r.ia.push_back( j ); r.va.push_back( D[i*n+j] ); } r.ja.push_back( r.ia.size( ) ); } r.ia.push_back( 77 ); r.va.push_back( 77 ); }
static bool make( int k, const V& D, int m, int n, Rep& r )
{
	bool dup = k>=9; int b = k%9; r.ref = D; r.sym = 0; bool sq = m==n, symm = sq; if ( sq ) for( int i=0; i<n; ++i ) for( int j=0; j<i; ++j ) if ( D[i*n+j]!=D[j*n+i] ) symm = false;
	switch( b )
	{
		case 0: r.nm="dense"; r.own=D; r.own.push_back( 0 ); r.m.reset( new DenseMatrix( m,n,n,r.own.data( ) ) ); break;
		case 1: r.nm="dense padded"; { int ld=n+2; r.own.assign( m*ld+1,1e9 ); for( int i=0; i<m; ++i ) for( int j=0; j<n; ++j ) r.own[i*ld+j]=D[i*n+j]; r.m.reset( new DenseMatrix( m,n,ld,r.own.data( ) ) ); } break;
		case 2: if ( !symm ) return false; r.nm="symmetric dense"; { r.own=D; r.own.push_back( 0 ); SymDenseMat* s=new SymDenseMat( n,n,n,r.own.data( ) ); r.m.reset( s ); r.sym=s; } break;
		case 3: r.nm="column from dense"; r.own=D; r.own.push_back( 0 ); { SparseMatrix* s = new SparseMatrix( m,n,n,r.own.data( ) ); s->createDiagInfo( ); r.m.reset( s ); } break;
		case 4: r.nm="column raw"; csc( r,D,m,n,false ); { SparseMatrix* s = new SparseMatrix( m,n,r.ia.data( ),r.ja.data( ),r.va.data( ) ); s->createDiagInfo( ); r.m.reset( s ); } break;
		case 5: r.nm="row from dense"; r.own=D; r.own.push_back( 0 ); { SparseMatrixRow* s = new SparseMatrixRow( m,n,n,r.own.data( ) ); s->createDiagInfo( ); r.m.reset( s ); } break;
		case 6: r.nm="row raw"; csr( r,D,m,n,false ); { SparseMatrixRow* s = new SparseMatrixRow( m,n,r.ja.data( ),r.ia.data( ),r.va.data( ) ); s->createDiagInfo( ); r.m.reset( s ); } break;
		case 7: if ( !symm ) return false; r.nm="symmetric sparse from dense"; { r.own=D; r.own.push_back( 0 ); SymSparseMat* s=new SymSparseMat( n,n,n,r.own.data( ) ); s->createDiagInfo( ); r.m.reset( s ); r.sym=s; } break;
		case 8: if ( !symm ) return false; r.nm="symmetric sparse raw"; { csc( r,D,m,n,false ); SymSparseMat* s=new SymSparseMat( n,n,r.ia.data( ),r.ja.data( ),r.va.data( ) ); s->createDiagInfo( ); r.m.reset( s ); r.sym=s; } break;
	}
	if ( dup )
	{
		r.nm = "duplicate of " + r.nm;
		if ( b==0 || b==1 || b==2 ) { /* dense: duplicates share the values unless the matrix owns them */ V* keep = new V( r.own ); double* p = new double[keep->size( )]; std::copy( keep->begin( ),keep->end( ),p ); delete keep; int ld=b==1?n+2:n; if ( b==2 ) r.m.reset( new SymDenseMat( n,n,ld,p ) ); else r.m.reset( new DenseMatrix( m,n,ld,p ) ); r.m->doFreeMemory( ); }
		if ( r.sym ) { SymmetricMatrix* s = dynamic_cast<SymmetricMatrix*>( r.m.get( ) )->duplicateSym( ); r.m.reset( dynamic_cast<Matrix*>( s ) ); r.sym = s; s->doFreeMemory( ); }
		else { Matrix* q = r.m->duplicate( ); r.m.reset( q ); q->doFreeMemory( ); }
		std::fill( r.own.begin( ),r.own.end( ),1e8 ); std::fill( r.va.begin( ),r.va.end( ),1e8 );   // the original is gone
	}
	return true;
}
static bool near( double a, double b ) { return fabs( a-b ) <= 1e-12*( 1+fabs( b ) ); }
static std::vector<std::vector<int> > lists( int n )       // all ordered subsets of {0..n-1}
{
	std::vector<std::vector<int> > r; std::vector<int> all; for( int i=0; i<n; ++i ) all.push_back( i );
	for( int mask=0; mask<(1<<n); ++mask ) { std::vector<int> v; for( int i=0; i<n; ++i ) if ( mask>>i&1 ) v.push_back( i ); do r.push_back( v ); while( std::next_permutation( v.begin( ),v.end( ) ) ); }
	return r;
}
static Indexlist mkl( const std::vector<int>& v, int n ) { Indexlist l( n+1 ); for( int x : v ) l.addNumber( x ); return l; }
static const double AL[4] = {1,-1,2.5,0}, BE[4] = {0,1,-1,0.5}; static const double XV[6] = {1,-3,0,2,5,-7}, YV[8] = {11,13,-17,19,23,-29,31,37};
static std::string D2( const V& D, int m, int n ) { std::string s="["; for( int i=0; i<m*n; ++i ) s += mc::fmt( i?",%g":"%g",D[i] ); return s + mc::fmt( "] %dx%d",m,n ); }
static bool cmpY( const V& y, const V& e, const std::string& what ) { for( size_t i=0; i<y.size( ); ++i ) if ( !near( y[i],e[i] ) ) { mc::fail( "product",what + mc::fmt( ": entry %d is %.12g, expected %.12g",(int)i,y[i],e[i] ) ); return false; } return true; }

// products: every combination
static bool products( Rep& r, int m, int n, int part )
{
	static const std::vector<std::vector<int> > L[5] = { lists( 0 ),lists( 1 ),lists( 2 ),lists( 3 ),lists( 4 ) };
	const V& D = r.ref; (void)part;
	for( int a=0; a<4; ++a ) for( int b=0; b<4; ++b ) for( int xN=1; xN<=2; ++xN )
	{
		// full products.  y is padded by one row per right-hand side
		for( int tr=0; tr<2; ++tr )
		{
			int nx = tr?m:n, ny = tr?n:m, xL=nx+1, yL=ny+1; if ( xL<1 ) xL=1; V x( xL*xN ),y( yL*xN ),e; for( size_t i=0; i<x.size( ); ++i ) x[i]=XV[i%6]; for( size_t i=0; i<y.size( ); ++i ) y[i]=YV[i%8]; e=y;
			for( int k=0; k<xN; ++k ) for( int i=0; i<ny; ++i ) { double s=0; for( int j=0; j<nx; ++j ) s += ( tr ? D[j*n+i] : D[i*n+j] )*x[k*xL+j]; e[k*yL+i] = AL[a]*s + BE[b]*y[k*yL+i]; }
			returnValue rv = tr ? r.m->transTimes( xN,AL[a],x.data( ),xL,BE[b],y.data( ),yL ) : r.m->times( xN,AL[a],x.data( ),xL,BE[b],y.data( ),yL );
			mc::transition( );
			if ( rv!=SUCCESSFUL_RETURN ) { mc::fail( "return-value",mc::fmt( "full product returned %d",(int)rv ) ); return false; }
			if ( !cmpY( y,e,mc::fmt( "full %sproduct alpha=%g beta=%g xN=%d",tr?"transposed ":"",AL[a],BE[b],xN ) ) ) return false;
		}
		for( auto& rl : L[m] ) { Indexlist ri = mkl( rl,m );
			for( size_t ci=0; ci<=L[n].size( ); ++ci )
			{
				bool nul = ci==L[n].size( ); std::vector<int> cl; if ( nul ) for( int j=0; j<n; ++j ) cl.push_back( j ); else cl = L[n][ci]; Indexlist cidx = mkl( cl,n );
				for( int mode=0; mode<3; ++mode )   // 0 compressed, 1 uncompressed, 2 transposed
				{
					if ( mode==2 && nul ) continue;
					int nx = mode==2 ? rl.size( ) : cl.size( ), ny = mode==2 ? cl.size( ) : mode==1 ? m : rl.size( ), xL=nx+1, yL=ny+1;
					V x( xL*xN ),y( yL*xN ),e; for( size_t i=0; i<x.size( ); ++i ) x[i]=XV[(i+b)%6]; for( size_t i=0; i<y.size( ); ++i ) y[i]=YV[i%8]; e=y;
					for( int k=0; k<xN; ++k )
						if ( mode<2 ) for( size_t i=0; i<rl.size( ); ++i ) { double s=0; for( size_t j=0; j<cl.size( ); ++j ) s += D[rl[i]*n+cl[j]]*x[k*xL+j]; int p=k*yL+( mode==1?rl[i]:(int)i ); e[p]=AL[a]*s+BE[b]*y[p]; }
						else for( size_t j=0; j<cl.size( ); ++j ) { double s=0; for( size_t i=0; i<rl.size( ); ++i ) s += D[rl[i]*n+cl[j]]*x[k*xL+i]; int p=k*yL+j; e[p]=AL[a]*s+BE[b]*y[p]; }
					returnValue rv = mode==2 ? r.m->transTimes( &ri,&cidx,xN,AL[a],x.data( ),xL,BE[b],y.data( ),yL ) : r.m->times( &ri,nul?0:&cidx,xN,AL[a],x.data( ),xL,BE[b],y.data( ),yL,mode==0?BT_TRUE:BT_FALSE );
					mc::transition( );
					auto what = [&] { std::string s = mc::fmt( "%s product alpha=%g beta=%g xN=%d rows",mode==2?"transposed":mode==1?"uncompressed":"compressed",AL[a],BE[b],xN ); for( int q : rl ) s += mc::fmt( " %d",q ); s += nul ? " cols all(NULL)" : " cols"; if ( !nul ) for( int q : cl ) s += mc::fmt( " %d",q ); return s; };
					if ( rv!=SUCCESSFUL_RETURN ) { mc::fail( "return-value",what( ) + mc::fmt( " returned %d",(int)rv ) ); return false; }
					for( size_t i=0; i<y.size( ); ++i ) if ( !near( y[i],e[i] ) ) { cmpY( y,e,what( ) ); return false; }
				}
			} }
	}
	return true;
}
static bool access( Rep& r, int m, int n )
{
	const V& D = r.ref; static const std::vector<std::vector<int> > L[5] = { lists( 0 ),lists( 1 ),lists( 2 ),lists( 3 ),lists( 4 ) };
	#define BAD( c,... ) { mc::fail( c,mc::fmt( __VA_ARGS__ ) ); return false; }
	bool diag = m==n; for( int i=0; i<m && diag; ++i ) for( int j=0; j<n; ++j ) if ( i!=j && D[i*n+j]!=0 ) diag=false;
	if ( r.m->isDiag( )==BT_TRUE && !diag ) BAD( "isDiag","non-diagonal matrix called diagonal" )
	if ( r.m->isDiag( )!=BT_TRUE && diag ) BAD( "isDiag","diagonal matrix not recognised" )
	for( int i=0; i<std::min( m,n ); ++i ) if ( r.m->diag( i )!=D[i*n+i] ) BAD( "diag","diagonal entry %d is %g",i,r.m->diag( i ) )
	for( int t=1; t<=2; ++t )
	{
		double s=0; V rn( m,0.0 ),out( m+1,99.0 ); for( int i=0; i<m; ++i ) for( int j=0; j<n; ++j ) { double v=D[i*n+j], w = t==1?fabs( v ):v*v; s+=w; rn[i]+=w; } if ( t==2 ) { s=sqrt( s ); for( auto& v : rn ) v=sqrt( v ); }
		if ( !near( r.m->getNorm( t ),s ) ) BAD( "norm","norm type %d is %g, expected %g",t,r.m->getNorm( t ),s )
		for( int i=0; i<m; ++i ) if ( !near( r.m->getRowNorm( i,t ),rn[i] ) ) BAD( "norm","norm type %d of row %d is %g, expected %g",t,i,r.m->getRowNorm( i,t ),rn[i] )
		if ( r.m->getRowNorm( out.data( ),t )!=SUCCESSFUL_RETURN ) BAD( "norm","row norms failed" )
		for( int i=0; i<m; ++i ) if ( !near( out[i],rn[i] ) ) BAD( "norm","all row norms, type %d, row %d: %g, expected %g",t,i,out[i],rn[i] )
		if ( out[m]!=99.0 ) BAD( "overrun","row norms overrun" )
		mc::transition( m+2 );
	}
	double* f = r.m->full( ); for( int i=0; i<m*n; ++i ) if ( f[i]!=D[i] ) { delete[] f; BAD( "full","entry %d of dense copy wrong",i ) } delete[] f;
	for( int a=0; a<4; ++a )
	{
		for( int i=0; i<m; ++i ) for( size_t c=0; c<=L[n].size( ); ++c )
		{
			bool nul=c==L[n].size( ); std::vector<int> cl; if ( nul ) for( int j=0; j<n; ++j ) cl.push_back( j ); else cl=L[n][c]; Indexlist l=mkl( cl,n ); V o( n+1,99.0 );
			if ( r.m->getRow( i,nul?0:&l,AL[a],o.data( ) )!=SUCCESSFUL_RETURN ) BAD( "getRow","failed" )
			for( size_t j=0; j<o.size( ); ++j ) if ( !near( o[j],j<cl.size( )?AL[a]*D[i*n+cl[j]]:99.0 ) ) BAD( "getRow","row %d alpha %g %s list size %d: entry %d is %g",i,AL[a],nul?"NULL":"",(int)cl.size( ),(int)j,o[j] )
			mc::transition( );
		}
		for( int j=0; j<n; ++j ) for( auto& rl : L[m] )
		{
			Indexlist l=mkl( rl,m ); V o( m+1,99.0 ); if ( r.m->getCol( j,&l,AL[a],o.data( ) )!=SUCCESSFUL_RETURN ) BAD( "getCol","failed" )
			for( size_t i=0; i<o.size( ); ++i ) if ( !near( o[i],i<rl.size( )?AL[a]*D[rl[i]*n+j]:99.0 ) ) BAD( "getCol","col %d alpha %g: entry %d is %g",j,AL[a],(int)i,o[i] )
			mc::transition( );
		}
	}
	// sparse submatrix extraction
	for( auto& rl : L[m] ) for( auto& cl : L[n] ) for( int low=0; low<2; ++low )
	{
		if ( low && ( !r.sym || rl!=cl ) ) continue;
		Indexlist ri=mkl( rl,m ), ci=mkl( cl,n ); int_t cnt=-1,cnt2=m*n; if ( r.m->getSparseSubmatrix( &ri,&ci,1,2,cnt,0,0,0,low?BT_TRUE:BT_FALSE )!=SUCCESSFUL_RETURN ) BAD( "submatrix","count failed" )
		std::vector<int_t> irn( m*n+1,-5 ),jcn( m*n+1,-5 ); V av( m*n+1,-5.0 );
		if ( r.m->getSparseSubmatrix( &ri,&ci,1,2,cnt2,irn.data( ),jcn.data( ),av.data( ),low?BT_TRUE:BT_FALSE )!=SUCCESSFUL_RETURN || cnt2!=cnt ) BAD( "submatrix","extraction failed or count differs: %d vs %d",(int)cnt2,(int)cnt )
		V S( std::max<size_t>( 1,rl.size( )*cl.size( ) ),0.0 ); for( int q=0; q<cnt; ++q ) { int i=irn[q]-1,j=jcn[q]-2; if ( i<0 || j<0 || i>=(int)rl.size( ) || j>=(int)cl.size( ) ) BAD( "submatrix","position out of range" ) S[i*cl.size( )+j]+=av[q]; }
		for( size_t i=0; i<rl.size( ); ++i ) for( size_t j=0; j<cl.size( ); ++j ) { double w = low && j>i ? 0.0 : D[rl[i]*n+cl[j]]; if ( S[i*cl.size( )+j]!=w ) BAD( "submatrix","%s entry (%d,%d) is %g, expected %g",low?"lower":"",(int)i,(int)j,S[i*cl.size( )+j],w ) }
		if ( irn[cnt]!=-5 || av[cnt]!=-5.0 ) BAD( "overrun","submatrix overrun" )
		mc::transition( 2 );
	}
	// single rows and columns of submatrices
	for( int side=0; side<2; ++side ) for( int k=0; k<( side?m:n ); ++k ) for( auto& l : L[side?n:m] )
	{
		Indexlist li=mkl( l,side?n:m ); int_t cnt=-1,cnt2=m*n; std::vector<int_t> irn( m+n+1,-5 ),jcn( m+n+1,-5 ); V av( m+n+1,-5.0 ),S( l.size( )+1,0.0 );
		returnValue r1 = side ? r.m->getSparseSubmatrix( k,&li,3,1,cnt,0,0,0 ) : r.m->getSparseSubmatrix( &li,k,1,3,cnt,0,0,0 );
		returnValue r2 = side ? r.m->getSparseSubmatrix( k,&li,3,1,cnt2,irn.data( ),jcn.data( ),av.data( ) ) : r.m->getSparseSubmatrix( &li,k,1,3,cnt2,irn.data( ),jcn.data( ),av.data( ) );
		if ( r1!=SUCCESSFUL_RETURN || r2!=SUCCESSFUL_RETURN || cnt!=cnt2 || cnt<0 || cnt>(int_t)l.size( ) ) BAD( "submatrix","single %s: counts %d, %d",side?"row":"column",(int)cnt,(int)cnt2 )
		for( int q=0; q<cnt; ++q ) { int i=( side?jcn[q]:irn[q] )-1, o=( side?irn[q]:jcn[q] )-3; if ( o!=0 || i<0 || i>=(int)l.size( ) ) BAD( "submatrix","single %s: position out of range",side?"row":"column" ) S[i]+=av[q]; }
		for( size_t i=0; i<l.size( ); ++i ) if ( S[i]!=( side ? D[k*n+l[i]] : D[l[i]*n+k] ) ) BAD( "submatrix","single %s %d: entry %d is %g",side?"row":"column",k,(int)i,S[i] )
		if ( av[cnt]!=-5.0 ) BAD( "overrun","single %s overrun",side?"row":"column" )
		mc::transition( 2 );
	}
	// replacing the values of a sparse matrix
	if ( SparseMatrix* sm = dynamic_cast<SparseMatrix*>( r.m.get( ) ) )
	{
		V a( m*n+1,0.0 ); double* f=sm->full( ); SparseMatrix* c=dynamic_cast<SparseMatrix*>( sm->duplicate( ) ); c->doFreeMemory( );
		int_t nnz=m*n; std::vector<int_t> irn( nnz+1 ),jcn( nnz+1 ); std::vector<int> all; std::vector<int> rows; for( int i=0; i<n; ++i ) all.push_back( i ); for( int i=0; i<m; ++i ) rows.push_back( i ); Indexlist ri=mkl( rows,m ),ci=mkl( all,n );
		Matrix* cm=c; if ( cm->getSparseSubmatrix( &ri,&ci,0,0,nnz,irn.data( ),jcn.data( ),a.data( ) )==SUCCESSFUL_RETURN ) { for( int q=0; q<nnz; ++q ) a[q]=2*a[q]+1; c->setVal( a.data( ) ); double* g=c->full( ); for( int q=0; q<nnz; ++q ) { int p=irn[q]*n+jcn[q]; if ( g[p]!=2*f[p]+1 ) { delete[] f; delete[] g; delete c; BAD( "setVal","value %d",q ) } g[p]=f[p]; } for( int q=0; q<m*n; ++q ) if ( g[q]!=f[q] ) { delete[] f; delete[] g; delete c; BAD( "setVal","entry outside the pattern" ) } delete[] g; }
		delete[] f; delete c; mc::transition( );
	}
	if ( r.sym ) for( auto& cl : L[n] ) for( int xN=1; xN<=2; ++xN ) for( int pad=0; pad<=2; ++pad )
	{
		Indexlist l=mkl( cl,n ); int xL=n+1,yL=xN+pad; V x( xL*xN ),y( yL*xN+1,99.0 ); for( size_t i=0; i<x.size( ); ++i ) x[i]=XV[i%6];
		if ( r.sym->bilinear( &l,xN,x.data( ),xL,y.data( ),yL )!=SUCCESSFUL_RETURN ) BAD( "bilinear","failed" )
		for( int p=0; p<xN; ++p ) for( int q=0; q<xN; ++q ) { double s=0; for( int i : cl ) for( int j : cl ) s += x[p*xL+i]*D[i*n+j]*x[q*xL+j]; if ( !near( y[p*yL+q],s ) ) BAD( "bilinear","entry (%d,%d) is %g, expected %g",p,q,y[p*yL+q],s ) }
		if ( y[yL*xN]!=99.0 ) BAD( "overrun","bilinear overrun" )
		for( int p=0; p<xN; ++p ) for( int q=xN; q<yL; ++q ) if ( y[p*yL+q]!=99.0 ) BAD( "overrun","bilinear writes between the rows of its result" )
		mc::transition( );
	}
	// diagonal shift: exact on success, no change on error
	V before = D; returnValue rv = r.m->addToDiag( 0.5 ); f = r.m->full( ); bool ok = true;
	for( int i=0; i<m && ok; ++i ) for( int j=0; j<n; ++j ) if ( f[i*n+j]!=D[i*n+j]+( rv==SUCCESSFUL_RETURN && i==j ? 0.5 : 0.0 ) ) ok=false;
	V got( f,f+m*n ); delete[] f; mc::transition( 2 );
	if ( !ok ) BAD( "addToDiag","returned %d and left %s",(int)rv,D2( got,m,n ).c_str( ) )
	return true;
}
static void run( const V& D, int m, int n, int k, const char* sec )
{
	Rep r; if ( !make( k,D,m,n,r ) ) return;
	mc::key( r.nm + " " + D2( D,m,n ) ); mc::evaluation( ); mc::state( mc::hashStr( r.nm + D2( D,m,n ) ) ); (void)sec;
	if ( products( r,m,n,0 ) && access( r,m,n ) ) mc::traceValidated( );
	mc::sample( r.nm + " " + D2( D,m,n ) );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C20",RULE,[]
	{
		getGlobalMessageHandler( )->setErrorVisibilityStatus( VS_HIDDEN ); getGlobalMessageHandler( )->setWarningVisibilityStatus( VS_HIDDEN );
		mc::caseLimit = 120;
		auto add = [&]( int m, int n, std::vector<double> vals, bool sym, mc::u64 step )
		{
			int e = sym ? n*(n+1)/2 : m*n; mc::u64 tot=1; for( int i=0; i<e; ++i ) tot*=vals.size( );
			mc::addSection( mc::fmt( "%s%dx%d_%d",sym?"sym":"",m,n,(int)vals.size( ) ),( tot+step-1 )/step*NREP,[=]( mc::u64 i )
			{
				int k=i%NREP; mc::Dec d( i/NREP*step ); V D( m*n ); int c=0;
				if ( sym ) { for( int r=0; r<n; ++r ) for( int s=0; s<=r; ++s ) { double v=vals[d( vals.size( ) )]; if ( v!=0 && vals.size( )==2 ) v += c; ++c; D[r*n+s]=D[s*n+r]=v; } }
				else for( int q=0; q<m*n; ++q ) { double v=vals[d( vals.size( ) )]; if ( v!=0 && vals.size( )==2 ) v += q*( q%2?1:-1 ); D[q]=v; }
				run( D,m,n,k,"" );
			},8 );
		};
		add( 1,1,{0,1,-2},false,1 ); add( 2,2,{0,1,-2},false,1 ); add( 1,2,{0,1,-2},false,1 ); add( 2,1,{0,1,-2},false,1 ); add( 1,3,{0,1,-2},false,1 ); add( 3,1,{0,1,-2},false,1 );
		add( 2,3,{0,1.5},false,mc::thorough?1:1 ); add( 3,2,{0,1.5},false,1 ); add( 3,3,{0,1.5},true,mc::thorough?1:3 ); add( 3,3,{0,1.5},false,mc::thorough?1:17 );
	} );
}
