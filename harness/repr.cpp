// C08: the answer does not depend on how the QP is represented
#include "drv.hpp"
#include <memory>
static const char* RULE = "Every QP of the stated families, followed by a hotstart to every QP of a second list, is executed for every combination of solver class, Hessian storage (array, dense object, padded dense object, symmetric sparse from dense / compressed with and without explicit zeros, omitted where identity or zero), constraint matrix storage (same, row sparse), Hessian type hint and "
	"infinite limits given as NULL.  Each run is judged by the exact reference model and compared with the plain run (verdict, unique solution, objective).";
enum { HK = 7, AK = 7 };
static const char* HN[] = {"array","dense","padded","sparse-from-dense","ccs","ccs-zeros","omitted"};
static const char* AN[] = {"array","dense","padded","sparse-from-dense","ccs","ccs-zeros","rows"};
struct Store
{
	std::vector<std::shared_ptr<Matrix> > keep; std::vector<std::shared_ptr<std::vector<double> > > v; std::vector<std::shared_ptr<std::vector<sparse_int_t> > > ix;
	double* arr( const std::vector<double>& a ) { v.push_back( std::make_shared<std::vector<double> >( a ) ); if ( v.back( )->empty( ) ) v.back( )->push_back( 0 ); return v.back( )->data( ); }
	sparse_int_t* idx( const std::vector<sparse_int_t>& a ) { ix.push_back( std::make_shared<std::vector<sparse_int_t> >( a ) ); if ( ix.back( )->empty( ) ) ix.back( )->push_back( 0 ); return ix.back( )->data( ); }
	template<class M> M* own( M* m ) { keep.push_back( std::shared_ptr<Matrix>( m ) ); return m; }
	double* padded( const double* a, int r, int c, int pad ) { std::vector<double> p( r*( c+pad )+pad,1e33 ); for( int i=0; i<r; ++i ) for( int j=0; j<c; ++j ) p[i*( c+pad )+j]=a[i*c+j]; return arr( p ); }
	template<class M> M* ccs( const double* a, int r, int c, bool diag, bool zeros )
	{
		std::vector<sparse_int_t> ir,jc; std::vector<double> val; int cnt=0;
		for( int j=0; j<c; ++j ) { jc.push_back( ir.size( ) ); for( int i=0; i<r; ++i ) { bool z = zeros && ( ( i+j )%2==0 ); if ( a[i*c+j]!=0 || z || ( diag && i==j ) ) { ir.push_back( i ); val.push_back( a[i*c+j] ); ++cnt; } } }
		jc.push_back( ir.size( ) ); return own( new M( r,c,idx( ir ),idx( jc ),arr( val ) ) );
	}
	SymmetricMatrix* H( const QP& q, int k )
	{
		const int n=q.n; SymSparseMat* s=0;
		switch( k )
		{
			case 1: return own( new SymDenseMat( n,n,n,arr( std::vector<double>( q.H,q.H+n*n ) ) ) );
			case 2: return own( new SymDenseMat( n,n,n+2,padded( q.H,n,n,2 ) ) );
			case 3: s = own( new SymSparseMat( n,n,n,arr( std::vector<double>( q.H,q.H+n*n ) ) ) ); break;
			case 4: s = ccs<SymSparseMat>( q.H,n,n,!isPD( q.H,n ),false ); break;   // a diagonal that has to be regularised must be stored
			case 5: s = ccs<SymSparseMat>( q.H,n,n,true,true ); break;
		}
		if ( s ) s->createDiagInfo( ); return s;
	}
	Matrix* A( const QP& q, int k )
	{
		const int n=q.n,m=q.m;
		switch( k )
		{
			case 1: return own( new DenseMatrix( m,n,n,arr( std::vector<double>( q.A,q.A+m*n ) ) ) );
			case 2: return own( new DenseMatrix( m,n,n+3,padded( q.A,m,n,3 ) ) );
			case 3: return own( new SparseMatrix( m,n,n,arr( std::vector<double>( q.A,q.A+m*n ) ) ) );
			case 4: return ccs<SparseMatrix>( q.A,m,n,false,false );
			case 5: return ccs<SparseMatrix>( q.A,m,n,false,true );
			case 6:
			{
				std::vector<sparse_int_t> jr,ic; std::vector<double> val;
				for( int i=0; i<m; ++i ) { jr.push_back( ic.size( ) ); for( int j=0; j<n; ++j ) if ( q.A[i*n+j]!=0 || i==j ) { ic.push_back( j ); val.push_back( q.A[i*n+j] ); } }
				jr.push_back( ic.size( ) ); return own( new SparseMatrixRow( m,n,idx( jr ),idx( ic ),arr( val ) ) );
			}
		}
		return 0;
	}
};
struct Rep { int cls,h,a; HessianType hint; bool null; std::string str( ) const { static const char* C[]={"QProblemB","QProblem","SQProblem"}; return mc::fmt( "%s H %s A %s hint%d%s",C[cls],HN[h],AN[a],(int)hint,null?" NULL limits":"" ); } };
static int nulls( const QP& q )
{
	int k=15; for( int i=0; i<q.n; ++i ) { if ( q.lb[i]>-INF ) k&=~1; if ( q.ub[i]<INF ) k&=~2; } for( int i=0; i<q.m; ++i ) { if ( q.lbA[i]>-INF ) k&=~4; if ( q.ubA[i]<INF ) k&=~8; } return k;
}
#define V( v,bit ) ( (k&bit)?(const double*)0:(v) )
static returnValue callInit( QProblemB& p, const QP& q, SymmetricMatrix* H, Matrix*, const Rep& r, int_t& n ) { int k=r.null?nulls( q ):0; return H ? p.init( H,q.g,V( q.lb,1 ),V( q.ub,2 ),n ) : p.init( r.h==6?(const double*)0:q.H,q.g,V( q.lb,1 ),V( q.ub,2 ),n ); }
static returnValue callInit( QProblem& p, const QP& q, SymmetricMatrix* H, Matrix* A, const Rep& r, int_t& n )
{
	int k=r.null?nulls( q ):0;
	if ( H || A || ( r.h==6 && r.a ) ) { return p.init( H,q.g,A,V( q.lb,1 ),V( q.ub,2 ),V( q.lbA,4 ),V( q.ubA,8 ),n ); }
	return p.init( r.h==6?(const double*)0:q.H,q.g,q.m?q.A:(const double*)0,V( q.lb,1 ),V( q.ub,2 ),V( q.lbA,4 ),V( q.ubA,8 ),n );
}
static returnValue callHot( QProblemB& p, const QP& q, const Rep& r, int_t& n ) { int k=r.null?nulls( q ):0; return p.hotstart( q.g,V( q.lb,1 ),V( q.ub,2 ),n ); }
static returnValue callHot( QProblem& p, const QP& q, const Rep& r, int_t& n ) { int k=r.null?nulls( q ):0; return p.hotstart( q.g,V( q.lb,1 ),V( q.ub,2 ),V( q.lbA,4 ),V( q.ubA,8 ),n ); }
struct Out { Obs o[2]; };
template<class P> static Out run( P* p, const QP* q, const Rep& r, const Options& opt )
{
	Store S; Out out; p->setOptions( opt ); 
	SymmetricMatrix* H = r.h && r.h<6 ? S.H( q[0],r.h ) : 0; Matrix* A = r.a && q[0].m ? S.A( q[0],r.a ) : 0;
	// mixed array/object calls do not exist: the other one becomes a dense object
	if ( A && !H && r.h!=6 ) H = S.H( q[0],1 ); if ( ( H || r.h==6 ) && !A && q[0].m && ( H ) ) A = S.A( q[0],1 );
	int_t n=200; returnValue rv = callInit( *p,q[0],H,A,r,n ); out.o[0]=observe( *p,q[0].n,q[0].m,rv,n );
	n=200; rv = callHot( *p,q[1],r,n ); out.o[1]=observe( *p,q[0].n,q[0].m,rv,n );
	mc::transition( 2 );
	delete p; return out;
}
static Out run( const QP* q, const Rep& r, const Options& o )
{
	if ( r.cls==0 ) return run( new QProblemB( q[0].n,r.hint ),q,r,o );
	if ( r.cls==1 ) return run( new QProblem( q[0].n,q[0].m,r.hint ),q,r,o );
	return run( new SQProblem( q[0].n,q[0].m,r.hint ),q,r,o );
}
static void check( const Fam& f, int i0, int i1, int var, const std::string& id )
{
	QP q[2]={f.d[i0],f.d[i1]}; const int n=f.n,m=f.m; Options o=variant( var ); const bool pd=f.pd;
	bool ident=true,zero=true; for( int i=0; i<n*n; ++i ) { double e=( i%(n+1)==0 ); if ( q[0].H[i]!=e ) ident=false; if ( q[0].H[i]!=0 ) zero=false; }
	HessianType right = ident?HST_IDENTITY:zero?HST_ZERO:pd?HST_POSDEF:HST_SEMIDEF;
	Rep base; base.cls=1; base.h=base.a=0; base.hint=HST_UNKNOWN; base.null=false;
	Out b = run( q,base,o );
	for( int c = m?1:0; c<3; ++c ) for( int h=0; h<HK; ++h ) for( int a=0; a<( m?AK:1 ); ++a ) for( int t=0; t<2; ++t ) for( int nu=0; nu<2; ++nu )
	{
		if ( h==6 && !( ident||zero ) ) continue;
		if ( h==6 && !t ) continue;                                   // an omitted Hessian needs its type
		if ( nu && !nulls( q[0] ) && !nulls( q[1] ) ) continue;
		Rep r; r.cls=c; r.h=h; r.a=a; r.hint=t?right:HST_UNKNOWN; r.null=nu!=0;
		mc::key( id+" "+r.str( ) ); Out x = run( q,r,o ); mc::evaluation( );
		for( int k=0; k<2; ++k )
		{
			const Obs& u=x.o[k]; const Obs& v=b.o[k];
			if ( mc::verbose ) fprintf( stderr,"%s step %d: %s\n",r.str( ).c_str( ),k,u.str( n,m ).c_str( ) );
			mc::state( mc::hashBytes( &u,sizeof(u) ) );
			if ( !pd && k && !b.o[0].solved ) break;
			if ( !pd && isFeasible( q[k] ) && isUnboundedConvex( q[k] ) ) break;      // unboundedness: C04
			std::string w = pd || u.solved || u.inf || u.unb || k==0 ? judge( q[k],u,judgeIdx( var ),k==1 && !pd ) : "";
			std::string at = mc::fmt( "step %d: ",k );
			if ( !w.empty( ) ) { mc::fail( mc::fmt( "%s-wrong",pd?"PD":"SD" ),at+w+" QP "+show( q[k] ) ); break; }
			if ( u.solved!=v.solved || u.inf!=v.inf || u.unb!=v.unb ) { mc::fail( mc::fmt( "%s-verdict",pd?"PD":"SD" ),at+u.str( n,m )+" plain: "+v.str( n,m )+" QP "+show( q[k] ) ); break; }
			if ( u.solved )
			{
				double sc=1; for( int i=0; i<n; ++i ) sc=std::max( sc,fabs( v.x[i] ) );
				bool eq=true; if ( pd ) for( int i=0; i<n; ++i ) if ( fabs( u.x[i]-v.x[i] )>1e-5*sc ) eq=false;
				if ( fabs( u.obj-v.obj )>1e-5*sc*sc ) eq=false;
				if ( !eq ) { mc::fail( mc::fmt( "%s-solution",pd?"PD":"SD" ),at+u.str( n,m )+mc::fmt( " obj %g plain: ",u.obj )+v.str( n,m )+mc::fmt( " obj %g",v.obj ) ); break; }
			}
		}
		mc::outcome( x.o[0].str( n,m )+x.o[1].str( n,m ) );
	}
	mc::traceValidated( ); mc::sample( id+" "+b.o[1].str( n,m ) );
}
static std::vector<Fam> F;
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C08",RULE,[]
	{
		F.clear( ); const bool T=mc::thorough;
		const VV g2={{-2,1},{3,3},{0,-4}}, g3={{-2,1,1},{1,-3,2}};
		auto add=[&]( const Fam& f, size_t want ) { F.push_back( thin( f,want ) ); };
		const int k = T?3:1;
		add( family( "B1",1,0,{2},{},{{-2},{1},{4}},{0,1,2,3,4,7},{} ),18 );
		add( family( "B2pd",2,0,{2,-1,-1,2},{},g2,{0,1,2,3,4},{} ),20*k );
		add( family( "B2id",2,0,{1,0,0,1},{},g2,{0,1,2,3,4},{} ),16*k );
		add( family( "B2zero",2,0,{0,0,0,0},{},g2,{0,2,4},{} ),12*k );
		add( family( "B2sd",2,0,{1,-1,-1,1},{},g2,{0,1,4},{} ),12*k );
		add( family( "Q21pd",2,1,{2,-1,-1,2},{{1,2}},g2,{0,1,2},{0,1,4,5,8} ),20*k );
		add( family( "Q21id",2,1,{1,0,0,1},{{1,-1}},g2,{0,1,3},{0,1,4,5} ),16*k );
		add( family( "Q21zero",2,1,{0,0,0,0},{{1,1}},g2,{0,2},{0,1,4} ),10*k );
		add( family( "Q22diag",2,2,{3,0,0,1},{{1,0},{0,1}},g2,{0,1},{0,1,4,3} ),16*k );
		add( family( "Q23pd",2,3,{2,1,1,2},{{1,1},{1,-1},{0,1}},g2,{0,1},{0,1,3} ),16*k );
		add( family( "Q32pd",3,2,{2,1,0,1,2,-1,0,-1,2},{{1,1,1},{1,-1,0}},g3,{0,1},{0,1,4} ),16*k );
		add( family( "Q32gap",3,2,{2,0,0,0,1,0,0,0,4},{{0,0,1},{2,0,0}},g3,{0,1,2},{0,1,4} ),12*k );
		add( family( "Q32sd",3,2,{2,1,0,1,1,0,0,0,0},{{1,1,1},{1,-1,0}},g3,{0},{0,1,5} ),10*k );
		for( size_t i=0; i<F.size( ); ++i )
		{
			mc::u64 N=F[i].d.size( ); int nv=T?NVAR:5;
			mc::addSection( F[i].name,N*N*nv,[=]( mc::u64 c ) { mc::Dec d( c ); int a=d( N ),b=d( N ),v=shortVar( d( nv ),nv ); std::string vn; variant( v,&vn ); check( F[i],a,b,v,vn+mc::fmt( " %s %d %d",F[i].name.c_str( ),a,b ) ); } );
		}
	} );
}
