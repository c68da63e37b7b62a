// C09: sequences of QPs with changing matrices (SQProblem)
#include "drv.hpp"
#include <memory>
static const char* RULE =
	"All sequences (init, then hotstarts with new matrices or with new vectors only) of length 2-3 over a list of QPs that differ in Hessian, constraint matrix and vectors, with dense arrays or sparse matrix objects; "
	"each step is judged by the exact model (verdict, optimality).  transitions = solves.";
struct Set { std::string name; int n,m; std::vector<QP> q; bool pd; };
static std::vector<Set> sets;
struct Mats { std::vector<std::shared_ptr<Matrix> > keep; std::vector<std::shared_ptr<std::vector<double> > > arr; std::vector<std::shared_ptr<std::vector<sparse_int_t> > > idx; };
// column compressed copy (stored zeros dropped, diagonal of H always stored)
template<class M> static M* sparse( Mats& K, const double* a, int nr, int nc, bool diag )
{
	auto v = std::make_shared<std::vector<double> >( ); auto ir = std::make_shared<std::vector<sparse_int_t> >( ), jc = std::make_shared<std::vector<sparse_int_t> >( );
	for( int j=0; j<nc; ++j ) { jc->push_back( ir->size( ) ); for( int i=0; i<nr; ++i ) if ( a[i*nc+j]!=0 || ( diag && i==j ) ) { ir->push_back( i ); v->push_back( a[i*nc+j] ); } }
	jc->push_back( ir->size( ) ); if ( v->empty( ) ) { v->push_back( 0 ); ir->push_back( 0 ); }
	M* m = new M( nr,nc,ir->data( ),jc->data( ),v->data( ) ); K.keep.push_back( std::shared_ptr<Matrix>( m ) ); K.arr.push_back( v ); K.idx.push_back( ir ); K.idx.push_back( jc );
	return m;
}
static SymSparseMat* spH( Mats& K, const QP& q ) { SymSparseMat* h = sparse<SymSparseMat>( K,q.H,q.n,q.n,true ); h->createDiagInfo( ); return h; }
static Matrix* spA( Mats& K, const QP& q, int st ) { if ( !q.m ) return 0; if ( st==2 )
	{	// row-wise
		auto v = std::make_shared<std::vector<double> >( ); auto jr = std::make_shared<std::vector<sparse_int_t> >( ), ic = std::make_shared<std::vector<sparse_int_t> >( );
		for( int i=0; i<q.m; ++i ) { jr->push_back( ic->size( ) ); for( int j=0; j<q.n; ++j ) if ( q.A[i*q.n+j]!=0 ) { ic->push_back( j ); v->push_back( q.A[i*q.n+j] ); } }
		jr->push_back( ic->size( ) ); if ( v->empty( ) ) { v->push_back( 0 ); ic->push_back( 0 ); }
		SparseMatrixRow* m = new SparseMatrixRow( q.m,q.n,jr->data( ),ic->data( ),v->data( ) ); K.keep.push_back( std::shared_ptr<Matrix>( m ) ); K.arr.push_back( v ); K.idx.push_back( jr ); K.idx.push_back( ic ); return m;
	}
	return sparse<SparseMatrix>( K,q.A,q.m,q.n,false ); }
static int storeOf( int mode, int step ) { return mode<3 ? mode : step%3; }     // 0 dense arrays, 1 column sparse, 2 row sparse, 3 alternating
static bool go( const Set& S, const std::vector<int>& seq, const std::vector<int>& kind, int var, int mode )
{
	Mats K; SQProblem p( S.n,S.m ); p.setOptions( variant( var ) ); QP cur; bool wasInf = false; std::string h;
	for( size_t s=0; s<seq.size( ); ++s )
	{
		QP q = S.q[seq[s]]; int_t nW = 300; returnValue rv; int st = storeOf( mode,s );
		if ( kind[s]==1 ) { memcpy( q.H,cur.H,sizeof(q.H) ); memcpy( q.A,cur.A,sizeof(q.A) ); rv = dHot( p,q,nW ); }
		else if ( s==0 ) { if ( st==0 ) rv = dInit( p,q,nW ); else rv = p.init( spH( K,q ),q.g,spA( K,q,st ),q.lb,q.ub,q.lbA,q.ubA,nW ); }
		else if ( st==0 ) rv = dHotM( p,q,nW );
		else rv = p.hotstart( spH( K,q ),q.g,spA( K,q,st ),q.lb,q.ub,q.lbA,q.ubA,nW );
		cur = q; mc::transition( );
		Obs o = observe( p,S.n,S.m,rv,nW ); h += mc::fmt( "%c%d ","MV"[kind[s]],seq[s] ); if ( mc::verbose ) fprintf( stderr,"   %s nWSR=%d obj=%.12g QP %s\n",o.str( S.n,S.m ).c_str( ),(int)nW,o.obj,show( q ).c_str( ) );
		std::string w = S.pd || o.solved || o.inf || o.unb ? judge( q,o,judgeIdx( var ),wasInf ) : "";
		if ( !S.pd && w.empty( ) && !o.solved && !o.inf && !o.unb ) mc::stat( "semidefinite QP given up" );
		if ( !w.empty( ) ) { mc::fail( mc::fmt( "%s-step%d",S.pd?"PD":"SD",(int)s ),w + " history " + h + "QP " + show( q ) ); return false; }
		wasInf = wasInf || !o.solved;
		if ( !o.solved ) mc::stat( o.inf?"infeasible step":"other step" ); else mc::stat( "solved step" );
		mc::state( mc::hashBytes( o.ws,sizeof(o.ws),mc::hashBytes( o.x,sizeof(o.x),mc::hashBytes( o.y,sizeof(o.y),rv*64 ) ) ) );
		if ( !o.inited || rv==RET_INIT_FAILED || o.unb || ( !S.pd && isFeasible( q ) && isUnboundedConvex( q ) ) ) return true;   // nothing promised behind an unbounded QP
	}
	mc::traceValidated( ); mc::sample( h + "in " + S.name ); return true;
}
static QP mk( int n, int m, const std::vector<double>& H, const VV& A, const std::vector<double>& g, const std::vector<int>& r )
{ QP q; q.n=n; q.m=m; for( int i=0; i<n*n; ++i ) q.H[i]=H[i]; for( int i=0; i<m; ++i ) for( int j=0; j<n; ++j ) q.A[i*n+j]=A[i][j]; for( int i=0; i<n; ++i ) { q.g[i]=g[i]; q.lb[i]=RANGES[r[i]].l; q.ub[i]=RANGES[r[i]].u; } for( int i=0; i<m; ++i ) { q.lbA[i]=RANGES[r[n+i]].l; q.ubA[i]=RANGES[r[n+i]].u; } return q; }
static Set build( const char* name, int n, int m, const VV& Hs, const std::vector<VV>& As, const VV& gs, const VV& rs, bool pd )
{
	Set S; S.name=name; S.n=n; S.m=m; S.pd=pd; size_t k=0;
	for( auto& H : Hs ) for( auto& A : As ) for( auto& r : rs ) { std::vector<int> ri( r.begin( ),r.end( ) ); S.q.push_back( mk( n,m,H,A,gs[k++%gs.size( )],ri ) ); }
	return S;
}
static void add( Set S, int len, int nvar, int nmode )
{
	sets.push_back( S ); size_t si=sets.size( )-1; mc::u64 N=S.q.size( ), nk = 1ull<<( len-1 ), tot=1; for( int i=0; i<len; ++i ) tot*=N;
	mc::addSection( S.name+mc::fmt( "_len%d",len ),tot*nk*nvar*nmode,[=]( mc::u64 i )
	{
		mc::Dec d( i ); int var=shortVar( d( nvar ),nvar ), mode=d( nmode ), kk=d( nk ); std::vector<int> seq,kind; std::string s;
		for( int j=0; j<len; ++j ) { seq.push_back( d( N ) ); kind.push_back( j==0?0:(kk>>(j-1))&1 ); s += mc::fmt( " %c%d","MV"[kind[j]],seq[j] ); }
		std::string vn; variant( var,&vn ); static const char* mn[] = {"dense","sparse","rowsparse","mixed"};
		mc::key( vn + " " + sets[si].name + " " + mn[mode] + s ); mc::evaluation( ); go( sets[si],seq,kind,var,mode );
	} );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C09",RULE,[]
	{
		mc::registerStat( "solved step" ); mc::registerStat( "infeasible step" ); mc::registerStat( "other step" ); mc::registerStat( "semidefinite QP given up" );
		sets.clear( ); sets.reserve( 50 ); const bool T = mc::thorough;
		VV H2={{2,-1,-1,2},{1,0,0,1},{1,0,0,3},{4,1,1,2}}, H2s={{1,-1,-1,1},{0,0,0,0},{1,0,0,0},{2,1,1,2}}, H3={{2,1,0,1,2,-1,0,-1,2},{1,0,0,0,1,0,0,0,1},{3,0,1,0,1,0,1,0,2}};
		std::vector<VV> A21={{{1,1}},{{1,-1}},{{0,1}},{{2,0}}}, A22={{{1,1},{1,-1}},{{1,1},{2,2}},{{0,1},{1,0}},{{1,-1},{0,0}}}, A23={{{1,1},{1,-1},{1,0}},{{0,1},{2,1},{1,1}},{{1,0},{0,1},{-1,1}}};
		std::vector<VV> A32={{{1,1,1},{1,-1,0}},{{0,0,1},{1,1,0}},{{1,1,1},{2,2,2}}}, A0={VV()};
		VV g2={{-2,1},{1,1},{0,-2},{3,-3}}, g3={{-2,1,1},{1,-2,0},{3,3,-3}};
		add( build( "B2",2,0,H2,A0,g2,{{0,0},{1,2},{4,5},{3,7}},true ),T?4:3,T?NVAR:5,T?4:2 );
		add( build( "Q21",2,1,H2,A21,g2,{{0,0,0},{2,1,8},{5,0,3}},true ),2,NVAR,4 );
		add( build( "Q22",2,2,H2,A22,g2,{{0,0,0,0},{1,1,4,3},{2,0,5,8}},true ),2,NVAR,4 );
		add( build( "Q22_",2,2,{H2[0],H2[2]},{A22[0],A22[1],A22[2]},g2,{{0,0,0,0},{1,1,4,4},{0,1,2,5}},true ),T?4:3,T?4:4,T?2:1 );
		add( build( "Q23",2,3,{H2[0],H2[3]},A23,g2,{{0,0,0,0,0},{1,1,4,3,2},{1,0,5,8,0}},true ),2,T?NVAR:5,4 );
		add( build( "Q32",3,2,H3,A32,g3,{{0,0,0,0,0},{1,1,2,4,4},{0,1,0,5,3}},true ),2,T?NVAR:6,4 );
		if ( T ) add( build( "Q32_",3,2,{H3[0],H3[2]},A32,g3,{{0,0,0,0,0},{1,1,2,4,4},{0,1,0,5,3}},true ),3,4,2 );
		add( build( "SD2",2,0,H2s,A0,g2,{{0,0},{0,2},{4,5},{3,0}},false ),T?4:3,4,2 );
		add( build( "SD22",2,2,H2s,{A22[0],A22[2]},g2,{{0,0,0,0},{0,0,4,3},{0,0,5,8}},false ),2,4,4 );
	} );
}
