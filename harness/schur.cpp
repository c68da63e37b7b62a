// C10: the sparse Schur complement class. The MA57 routines and two LAPACK routines are stand-ins (ma57.cpp), everything else is the real code.
#include "worlds.hpp"
#include <memory>
extern long ma57Factorisations, ma57Solves, ma57Singular, ma57Bad, ma57Calls, ma57FailAt, ma57Failed;
typedef long fi;
extern "C" { void ma57id_( double*, fi* ); void ma57ad_( fi*, fi*, const fi*, const fi*, fi*, fi*, fi*, fi*, fi*, double* ); void ma57bd_( fi*, fi*, double*, double*, fi*, fi*, fi*, fi*, fi*, fi*, fi*, double*, fi*, double* ); void ma57cd_( fi*, fi*, double*, fi*, fi*, fi*, fi*, double*, fi*, double*, fi*, fi*, fi*, fi* ); }
typedef SQProblemSchur P;
struct Mats { std::vector<std::shared_ptr<Matrix> > keep; std::vector<std::shared_ptr<std::vector<double> > > arr; std::vector<std::shared_ptr<std::vector<sparse_int_t> > > idx; };
template<class M> static M* sparse( Mats& K, const double* a, int nr, int nc, bool diag )
{
	auto v = std::make_shared<std::vector<double> >( ); auto ir = std::make_shared<std::vector<sparse_int_t> >( ), jc = std::make_shared<std::vector<sparse_int_t> >( );
	for( int j=0; j<nc; ++j ) { jc->push_back( ir->size( ) ); for( int i=0; i<nr; ++i ) if ( a[i*nc+j]!=0 || ( diag && i==j ) ) { ir->push_back( i ); v->push_back( a[i*nc+j] ); } }
	jc->push_back( ir->size( ) ); if ( v->empty( ) ) { v->push_back( 0 ); ir->push_back( 0 ); }
	M* m = new M( nr,nc,ir->data( ),jc->data( ),v->data( ) ); K.keep.push_back( std::shared_ptr<Matrix>( m ) ); K.arr.push_back( v ); K.idx.push_back( ir ); K.idx.push_back( jc );
	return m;
}
static SymSparseMat* spH( Mats& K, const QP& q ) { SymSparseMat* h = sparse<SymSparseMat>( K,q.H,q.n,q.n,true ); h->createDiagInfo( ); return h; }
static Matrix* spA( Mats& K, const QP& q, int st )
{
	if ( !q.m ) return 0;
	if ( st==2 )
	{
		auto v = std::make_shared<std::vector<double> >( ); auto jr = std::make_shared<std::vector<sparse_int_t> >( ), ic = std::make_shared<std::vector<sparse_int_t> >( );
		for( int i=0; i<q.m; ++i ) { jr->push_back( ic->size( ) ); for( int j=0; j<q.n; ++j ) if ( q.A[i*q.n+j]!=0 ) { ic->push_back( j ); v->push_back( q.A[i*q.n+j] ); } }
		jr->push_back( ic->size( ) ); if ( v->empty( ) ) { v->push_back( 0 ); ic->push_back( 0 ); }
		SparseMatrixRow* m = new SparseMatrixRow( q.m,q.n,jr->data( ),ic->data( ),v->data( ) ); K.keep.push_back( std::shared_ptr<Matrix>( m ) ); K.arr.push_back( v ); K.idx.push_back( jr ); K.idx.push_back( ic ); return m;
	}
	return sparse<SparseMatrix>( K,q.A,q.m,q.n,false );
}
static returnValue sInit( P& p, Mats& K, const QP& q, int st, int_t& n ) { return st==0 ? dInit( p,q,n ) : p.init( spH( K,q ),q.g,spA( K,q,st ),q.lb,q.ub,q.lbA,q.ubA,n ); }
static returnValue sMat( P& p, Mats& K, const QP& q, int st, int_t& n ) { return st==0 ? dHotM( p,q,n ) : p.hotstart( spH( K,q ),q.g,spA( K,q,st ),q.lb,q.ub,q.lbA,q.ubA,n ); }
static const int SMAX[] = {75,1,2,4}; static const char* STN[] = {"dense","sparse","rowsparse"};
static std::vector<World> W; static std::vector<Fam> F;
// ---------- call histories in the worlds, every stop judged
enum { INIT0, INIT1, HOT2, HOT3, HOTINF, MAT1, MAT0, CUT, MATCUT, RESET, COPY, ASSIGN, RESCHUR, NOPS };
static const char* ON[] = {"init0","init1","hot2","hot3","hotInfeas","mat1","mat0","hot3cut1","mat1cut1","reset","copy","assign","resetSchur"};
static void hist( const World& w, int var, int st, int smax, const std::vector<int>& h )
{
	std::string bad,cls="judge"; long l0=0; bool unbSeen=false, badStart=false; bool resetS=false;
	{
		Mats K; P* p=new P( w.n,w.m,HST_UNKNOWN,smax ); Options o=variant( var ); o.printLevel=PL_NONE; p->setOptions( o ); QP cur=w.d[0]; bool have=false,wasInf=false;
		for( size_t i=0; i<h.size( ) && bad.empty( ); ++i )
		{
			int_t n=300; returnValue rv=SUCCESSFUL_RETURN; QP q=w.d[0]; int kind=0; // 1 init 2 vectors 3 matrices
			switch( h[i] )
			{
				case INIT0: case INIT1: q=w.d[h[i]-INIT0]; kind=1; rv=sInit( *p,K,w.d[h[i]-INIT0],st,n ); break;
				case HOT2: q=w.d[2]; kind=2; rv=dHot( *p,q,n ); break;
				case HOT3: q=w.d[3]; kind=2; rv=dHot( *p,q,n ); break;
				case HOTINF: q=w.d[4]; kind=2; rv=dHot( *p,q,n ); break;
				case CUT: q=w.d[3]; kind=2; n=1; rv=dHot( *p,q,n ); break;
				case MAT1: q=w.d[1]; kind=3; rv=sMat( *p,K,w.d[1],st,n ); break;
				case MAT0: q=w.d[0]; kind=3; rv=sMat( *p,K,w.d[0],st,n ); break;
				case MATCUT: q=w.d[1]; kind=3; n=1; rv=sMat( *p,K,w.d[1],st,n ); break;
				case RESET: rv=p->reset( ); have=false; break;
				case COPY: { P* c=new P( *p ); delete p; p=c; break; }
				case ASSIGN: { P* c=new P( w.n,w.m,HST_UNKNOWN,smax ); *c=*p; delete p; p=c; break; }
				case RESCHUR: if ( have ) rv=p->resetSchurComplement( BT_FALSE ); break;
			}
			mc::transition( );
			if ( !kind ) continue;
			if ( kind==1 ) { have=true; cur=q; wasInf=false; unbSeen=false; }
			if ( !have ) { if ( rv==SUCCESSFUL_RETURN ) bad="accepted without initialisation"; continue; }
			if ( kind==3 ) cur=q; else if ( kind==2 ) { memcpy( q.H,cur.H,sizeof( q.H ) ); memcpy( q.A,cur.A,sizeof( q.A ) ); cur=q; }
			Obs ob=observe( *p,w.n,w.m,rv,n ); bool pd=isPD( q.H,q.n ), psd=isPSD( q.H,q.n );
			if ( mc::verbose ) fprintf( stderr,"   %s: %s nWSR=%d QP %s\n",ON[h[i]],ob.str( w.n,w.m ).c_str( ),(int)n,show( q ).c_str( ) );
			mc::state( mc::hashStr( ob.str( w.n,w.m ) ) );
			if ( !psd ) break;
			if ( rv==RET_MAX_NWSR_REACHED && ( h[i]==CUT || h[i]==MATCUT ) ) { if ( ob.solved || ob.inf || ob.unb ) bad="claims a verdict although interrupted: "+ob.str( w.n,w.m ); mc::stat( "interrupted" ); wasInf=true; continue; }
			if ( rv==SUCCESSFUL_RETURN && !ob.solved ) bad="success but not solved";
			else if ( unbSeen ) break;
			else if ( pd || ob.solved || ob.inf ) { bad=judge( q,ob,judgeIdx( var ),wasInf ); if ( !bad.empty( ) ) cls=pd?"PD":"SD"; }
			else mc::stat( "semidefinite QP given up" );
			if ( !bad.empty( ) ) bad=mc::fmt( "call %d (%s): ",(int)i+1,ON[h[i]] )+bad+" QP "+show( q );
			mc::stat( ob.solved?"solved":ob.inf?"infeasible":"other" ); wasInf=wasInf||!ob.solved; if ( ob.unb || ( !pd && isFeasible( q ) && isUnboundedConvex( q ) ) ) unbSeen=true;
		}
		delete p;
	}
	(void)l0; (void)badStart; (void)resetS; mc::traceValidated( );
	if ( ma57Bad ) { ma57Bad=0; bad="sparse solver got invalid data"; cls="data"; }
	if ( !bad.empty( ) ) mc::fail( cls,bad );
}
// ---------- single QPs and pairs of families
static void pairRun( const Fam& f, size_t ia, size_t ib, int var, int st, int smax )
{
	std::string bad; Mats K; P p( f.n,f.m,HST_UNKNOWN,smax ); Options o=variant( var ); o.printLevel=PL_NONE; p.setOptions( o ); const QP &a=f.d[ia],&b=f.d[ib];
	int_t n=300; returnValue rv=sInit( p,K,a,st,n ); Obs oa=observe( p,f.n,f.m,rv,n ); mc::transition( ); if ( f.pd || oa.solved || oa.inf ) bad=judge( a,oa,judgeIdx( var ) ); mc::outcome( oa.str( f.n,f.m ) );
	if ( mc::verbose ) fprintf( stderr,"   init: %s nWSR=%d\n",oa.str( f.n,f.m ).c_str( ),(int)n );
	if ( bad.empty( ) && ( f.pd || !( isFeasible( a ) && isUnboundedConvex( a ) ) ) && oa.st!=QPS_NOTINITIALISED && oa.st!=QPS_PREPARINGAUXILIARYQP )
	{
		n=300; rv=dHot( p,b,n ); Obs ob=observe( p,f.n,f.m,rv,n ); if ( mc::verbose ) fprintf( stderr,"   hot: %s nWSR=%d\n",ob.str( f.n,f.m ).c_str( ),(int)n ); mc::transition( ); if ( f.pd || ob.solved || ob.inf ) bad=judge( b,ob,judgeIdx( var ),!oa.solved ); mc::outcome( ob.str( f.n,f.m ) ); if ( !bad.empty( ) ) bad="hotstart: "+bad;
	}
	mc::traceValidated( );
	if ( ma57Bad ) { ma57Bad=0; bad="sparse solver got invalid data"; }
	if ( !bad.empty( ) ) mc::fail( f.pd?"PD":"SD",bad );
}
// ---------- one call to the sparse solver fails: the library call reports an error or is right nevertheless, later initialisations are as on a new object
static void fault( const World& w, int var, int st, int smax, const std::vector<int>& h, int at )
{
	std::string bad; ma57Calls=0; ma57FailAt=at; ma57Failed=0;
	{
		Mats K; P p( w.n,w.m,HST_UNKNOWN,smax ); Options o=variant( var ); o.printLevel=PL_NONE; p.setOptions( o ); QP cur=w.d[0]; bool wasInf=false,have=false;
		for( size_t i=0; i<=h.size( ) && bad.empty( ); ++i )
		{
			int_t n=300; returnValue rv=SUCCESSFUL_RETURN; QP q=w.d[0]; int op= i<h.size( )?h[i]:INIT0; if ( i==h.size( ) ) ma57FailAt=0; long f0=ma57Failed;
			switch( op )
			{
				case INIT0: case INIT1: q=w.d[op-INIT0]; rv=sInit( p,K,w.d[op-INIT0],st,n ); have=true; wasInf=false; break;
				case HOT2: case HOT3: q=w.d[op==HOT2?2:3]; rv=dHot( p,q,n ); memcpy( q.H,cur.H,sizeof( q.H ) ); memcpy( q.A,cur.A,sizeof( q.A ) ); break;
				case MAT1: case MAT0: q=w.d[op==MAT1]; rv=sMat( p,K,w.d[op==MAT1],st,n ); break;
			}
			mc::transition( ); cur=q; Obs ob=observe( p,w.n,w.m,rv,n ); if ( mc::verbose ) fprintf( stderr,"   %s: %s (failed %d)\n",ON[op],ob.str( w.n,w.m ).c_str( ),(int)ma57Failed );
			if ( rv==SUCCESSFUL_RETURN && !ob.solved ) bad="success but not solved";
			else if ( ob.solved || ob.inf || ( ma57Failed==0 ) || i==h.size( ) ) { bad=judge( q,ob,judgeIdx( var ),wasInf ); if ( !bad.empty( ) ) bad=mc::fmt( "call %d (%s)%s: ",(int)i+1,ON[op],ma57Failed?" after the failure":"" )+bad+" QP "+show( q ); }
			if ( ma57Failed>f0 && rv==SUCCESSFUL_RETURN ) mc::stat( "fault survived" ); else if ( ma57Failed>f0 ) mc::stat( "fault reported" );
			mc::outcome( ob.str( w.n,w.m ) ); wasInf=wasInf||!ob.solved;
		}
		(void)have;
	}
	ma57FailAt=0; mc::traceValidated( ); if ( !bad.empty( ) ) mc::fail( "fault",bad );
}
// ---------- conformance of the stand-in: factorisation, inertia, rank and solution of every small symmetric matrix
static double detM( const double* M, int n ) { if ( n==0 ) return 1; if ( n==1 ) return M[0]; double s=0; for( int c=0; c<n; ++c ) { double m[16]; for( int i=1; i<n; ++i ) for( int j=0,k=0; j<n; ++j ) if ( j!=c ) m[( i-1 )*( n-1 )+k++]=M[i*n+j]; s+=( c%2?-1:1 )*M[c]*detM( m,n-1 ); } return s; }
static void standin( int n, mc::u64 code )
{
	double M[16]; mc::Dec d( code ); for( int i=0; i<n; ++i ) for( int j=0; j<=i; ++j ) M[i*n+j]=M[j*n+i]=d( 5 )-2;
	Ma57SparseSolver s; std::vector<int_t> ir,jc; std::vector<double> v; for( int i=0; i<n; ++i ) for( int j=0; j<=i; ++j ) { ir.push_back( i+1 ); jc.push_back( j+1 ); v.push_back( M[i*n+j] ); }
	std::string bad; s.setMatrixData( n,(int_t)v.size( ),ir.data( ),jc.data( ),v.data( ) ); returnValue rv=s.factorize( ); double D=detM( M,n );
	// number of negative eigenvalues from the signs of the coefficients of the characteristic polynomial (real roots: Descartes is exact)
	std::vector<double> c( n+1,0 ); c[n]=1; for( int k=1; k<=n; ++k ) { double sm=0; for( int mask=0; mask<( 1<<n ); ++mask ) if ( __builtin_popcount( mask )==k ) { double m[16]; int r=0; for( int i=0; i<n; ++i ) if ( mask>>i&1 ) { int q=0; for( int j=0; j<n; ++j ) if ( mask>>j&1 ) m[r*k+q++]=M[i*n+j]; ++r; } sm+=detM( m,k ); } c[n-k]=( k%2?-1:1 )*sm; }
	int zero=0; while( zero<=n && c[zero]==0 ) ++zero; int neg=0; double last=0; for( int i=0; i<=n; ++i ) { double x=c[i]*( i%2?-1:1 ); if ( x==0 ) continue; if ( last!=0 && x*last<0 ) ++neg; last=x; }
	if ( D!=0 )
	{
		if ( rv!=SUCCESSFUL_RETURN || s.getNegativeEigenvalues( )!=neg || s.getRank( )!=n ) bad=mc::fmt( "rv=%d inertia %d instead of %d",(int)rv,(int)s.getNegativeEigenvalues( ),neg );
		double b[4]={1,-2,3,5},x[4]; s.solve( n,b,x ); for( int i=0; i<n; ++i ) { double r=-b[i]; for( int j=0; j<n; ++j ) r+=M[i*n+j]*x[j]; if ( !( fabs( r )<1e-9 ) ) bad="solution"; }
	}
	else
	{
		if ( rv!=RET_KKT_MATRIX_SINGULAR || s.getRank( )!=n-zero ) bad=mc::fmt( "rv=%d rank %d instead of %d",(int)rv,(int)s.getRank( ),n-zero );
		else { int_t zp[4]; int_t* z=zp; s.getZeroPivots( z ); double m[16]; int r=0; bool drop[4]={0,0,0,0}; for( int k=0; k<zero; ++k ) if ( zp[k]<0 || zp[k]>=n ) bad="zero pivot index"; else drop[zp[k]]=true; for( int i=0; i<n; ++i ) if ( !drop[i] ) { int q=0; for( int j=0; j<n; ++j ) if ( !drop[j] ) m[r*( n-zero )+q++]=M[i*n+j]; ++r; } if ( bad.empty( ) && ( r!=n-zero || detM( m,n-zero )==0 ) ) bad="zero pivots"; }
	}
	mc::evaluation( ); mc::outcome( mc::fmt( "%d %d %g",zero,neg,D ) ); if ( !bad.empty( ) ) mc::fail( "sparse solver",bad );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C10","All call histories up to the depth and all pairs of QPs of small families on the sparse Schur complement class x storage kinds x limits of the Schur complement x option variants, judged by the exact reference model; "
		"the sparse factorisation interface with its stand-in on every small symmetric integer matrix.",[]
	{
		W=worlds( ); const bool T=mc::thorough; for( const char* s : {"solved","infeasible","other","interrupted","semidefinite QP given up","fault survived","fault reported"} ) mc::registerStat( s );
		for( int n=1; n<=( T?4:3 ); ++n ) mc::addSection( mc::fmt( "standin%d",n ),ipow( 5,n*( n+1 )/2 ),[=]( mc::u64 i ) { mc::key( mc::fmt( "matrix %d of order %d",(int)i,n ) ); standin( n,i ); } );
		static const int VARS[] = {0,2,14,1,8,5,4,7,6,3,9,10,11,12,13,15,16,17};
		for( size_t wi=0; wi<W.size( ); ++wi )
		{
			std::string nm=W[wi].name; int len=T?4:3,nv=T?NVAR:2,ns=T?4:2;
			mc::addSection( nm,ipow( NOPS,len )*nv*3*ns,[=]( mc::u64 i )
			{
				mc::Dec d( i ); int st=d( 3 ),smax=SMAX[d( ns )],var=VARS[d( nv )]; std::vector<int> h; for( int k=0; k<len; ++k ) h.push_back( d( NOPS ) ); if ( h[0]!=INIT0 && h[0]!=INIT1 && h[0]!=HOT2 && h[0]!=MAT1 ) return;
				std::string vn; variant( var,&vn ); std::string s; for( int o : h ) s+=std::string( " " )+ON[o]; mc::key( nm+" "+vn+" "+STN[st]+mc::fmt( " max%d:",smax )+s ); mc::evaluation( ); hist( W[wi],var,st,smax,h );
			} );
		}
		for( size_t wi=0; wi<W.size( ); ++wi )
		{
			bool pd=true; for( auto& q : W[wi].d ) pd=pd&&isPD( q.H,q.n ); if ( !pd ) continue;
			static const int OP[]={INIT0,INIT1,HOT2,HOT3,MAT1,MAT0}; std::string nm="fault "+std::string( W[wi].name ); int len=T?3:2,nv=T?NVAR:2,na=T?24:12;
			mc::addSection( nm,ipow( 6,len )*nv*3*4*na,[=]( mc::u64 i )
			{
				mc::Dec d( i ); int at=1+d( na ),st=d( 3 ),smax=SMAX[d( 4 )],var=VARS[d( nv )]; std::vector<int> h( 1,INIT0 ); for( int k=0; k<len; ++k ) h.push_back( OP[d( 6 )] ); std::string vn; variant( var,&vn ); std::string s; for( int o : h ) s+=std::string( " " )+ON[o];
				mc::key( nm+" "+vn+" "+STN[st]+mc::fmt( " max%d at%d:",smax,at )+s ); mc::evaluation( ); fault( W[wi],var,st,smax,h,at );
			} );
		}
		F.reserve( 20 ); auto fam=[&]( Fam f ) { F.push_back( f ); };
		fam( thin( family( "B2",2,0,{2,-1,-1,2},{},{{-2,1},{3,-4},{0,5}},{0,2,5,1,3,4,6,8,7},{} ),T?100000:120 ) );
		fam( thin( family( "F22",2,2,{2,-1,-1,2},{{1,1},{1,-1}},{{-2,1},{3,-4},{0,5}},{0,2,5,1},{0,2,3,5,6,1,7} ),T?2000:300 ) );
		fam( thin( family( "F22d",2,2,{2,0,0,2},{{1,1},{2,2}},{{-2,1},{3,-4},{0,5}},{0,2,5,1},{0,2,3,5,6,1,7} ),T?2000:300 ) );
		fam( thin( family( "F32",3,2,{2,1,0,1,2,-1,0,-1,2},{{1,1,1},{1,-1,0}},{{-2,1,3},{3,-4,1}},{0,2,5},{0,2,3,5,1} ),T?2000:300 ) );
		fam( thin( family( "F23",2,3,{2,0,0,1},{{1,1},{1,-1},{2,2}},{{-2,1},{3,-4}},{0,5},{0,2,3,5,1} ),T?2000:300 ) );
		fam( thin( family( "S22",2,2,{1,-1,-1,1},{{1,1},{1,-1}},{{-2,1},{3,-4},{0,5}},{0,2,1,3},{0,2,3,5,1,7} ),T?2000:300 ) );
		fam( thin( family( "L22",2,2,{0,0,0,0},{{1,1},{1,-1}},{{-2,1},{3,-4},{0,5}},{0,2,1,3},{0,2,3,5,1,7} ),T?2000:300 ) );
		for( size_t fi=0; fi<F.size( ); ++fi )
		{
			int N=(int)F[fi].d.size( ),nv=T?NVAR:4,M=T?50:8,ns=T?4:2;
			mc::addSection( F[fi].name,(mc::u64)N*M*nv*3*ns,[=]( mc::u64 i )
			{
				mc::Dec d( i ); const Fam& f=F[fi]; int st=d( 3 ),smax=SMAX[d( ns )],var=VARS[d( nv )]; size_t a=d( N ),b=(size_t)( ( d( M )+0.5 )*N/M ); std::string vn; variant( var,&vn ); mc::key( vn+" "+STN[st]+mc::fmt( " max%d ",smax )+show( f.d[a] )+" then "+show( f.d[b] ) ); mc::evaluation( ); pairRun( f,a,b,var,st,smax );
			} );
		}
	} );
}
