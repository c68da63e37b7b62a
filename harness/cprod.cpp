// C28: user-defined constraint products. Executed on the real solver: histories with and without a callback, and every single evaluation failing.
#include "worlds.hpp"
#include <new>
static unsigned char fillByte=0; static long live=0;
void* operator new( size_t n ) { void* p = malloc( n?n:1 ); if ( !p ) throw std::bad_alloc( ); memset( p,fillByte,n ); ++live; return p; }
void* operator new[]( size_t n ) { return operator new( n ); }
void operator delete( void* p ) noexcept { if ( p ) --live; free( p ); }
void operator delete[]( void* p ) noexcept { if ( p ) --live; free( p ); }
void operator delete( void* p, size_t ) noexcept { if ( p ) --live; free( p ); }
void operator delete[]( void* p, size_t ) noexcept { if ( p ) --live; free( p ); }
struct CP : public ConstraintProduct
{
	const double* A; int n,m; mutable long calls; long failAt; mutable bool bad,failed; double poison;
	CP( int n_, int m_ ) : A(0), n(n_), m(m_), calls(0), failAt(-1), bad(false), failed(false), poison(0) {}
	virtual int_t operator() ( int_t i, const real_t* const x, real_t* const v ) const
	{
		++calls; if ( i<0 || i>=m || x==0 || v==0 || A==0 ) { bad=true; return 1; }
		if ( calls==failAt ) { failed=true; *v=poison; return calls%2 ? 1 : -3; }
		double s=0; for( int j=0; j<n; ++j ) { if ( !( fabs( x[j] )<1e30 ) ) bad=true; s+=A[i*n+j]*x[j]; }
		*v=s; return 0;
	}
};
enum { INIT0, INIT1, HOT2, HOT3, HOTINF, CUT, SETCP, CLRCP, COPY, RESET, MAT, MATCUT, NOPS };
static const char* ON[] = {"init0","init1","hot2","hot3","hotInfeas","hot2cut1","setProduct","clearProduct","copy","reset","mat1","mat0cut1"};
template<class P> returnValue matCall( P&, const QP&, int_t& n ) { n=0; return RET_NOT_YET_IMPLEMENTED; }
template<> returnValue matCall<SQProblem>( SQProblem& p, const QP& q, int_t& n ) { return dHotM( p,q,n ); }
struct Run { const QP* q; Obs o; bool mats; };
// executes op on p; cp (may be 0) is the callback that op setProduct installs; returns data of the QP addressed
template<class P> Run step( P*& p, const World& w, int op, CP* cp, const QP*& mat )
{
	int_t n=100; Run r; r.q=0; r.mats=false; returnValue rv=SUCCESSFUL_RETURN; const QP* q=0; bool init=false;
	switch( op ) { case INIT0: q=&w.d[0]; init=true; break; case INIT1: q=&w.d[1]; init=true; break; case HOT2: case CUT: q=&w.d[2]; break; case HOT3: q=&w.d[3]; break; case HOTINF: q=&w.d[4]; break; case MAT: q=&w.d[1]; break; case MATCUT: q=&w.d[0]; break; default: break; }
	const QP* old=mat; bool hasMat = init || op==MAT || op==MATCUT;
	if ( hasMat ) { mat=q; if ( cp ) cp->A=q->A; }
	switch( op )
	{
		case INIT0: case INIT1: rv=dInit( *p,*q,n ); break;
		case HOT2: case HOT3: case HOTINF: rv=dHot( *p,*q,n ); break;
		case CUT: n=1; rv=dHot( *p,*q,n ); break;
		case MAT: rv=matCall( *p,*q,n ); break;
		case MATCUT: n=1; rv=matCall( *p,*q,n ); break;
		case SETCP: if ( cp ) { if ( !cp->A && old ) cp->A=old->A; rv=p->setConstraintProduct( cp ); } n=0; break;
		case CLRCP: rv=p->setConstraintProduct( 0 ); n=0; break;
		case COPY: { P* c=new P( *p ); delete p; p=c; n=0; break; }
		case RESET: rv=p->reset( ); n=0; break;
	}
	if ( hasMat && ( rv==RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED || rv==RET_NOT_YET_IMPLEMENTED ) ) { mat=old; if ( cp ) cp->A = old ? old->A : 0; }
	r.q=q; r.o=observe( *p,w.n,w.m,rv,n ); return r;
}
static std::string same( const Obs& a, const Obs& b, int n, int m )
{
	if ( a.rv!=b.rv || a.st!=b.st || a.solved!=b.solved || a.inf!=b.inf || a.unb!=b.unb ) return "verdicts: "+a.str( n,m )+" with, "+b.str( n,m )+" without";
	double s=1; for( int i=0; i<n; ++i ) s=std::max( s,std::max( fabs( a.x[i] ),fabs( b.x[i] ) ) ); for( int i=0; i<n+m; ++i ) s=std::max( s,std::max( fabs( a.y[i] ),fabs( b.y[i] ) ) );
	for( int i=0; i<n; ++i ) if ( !( fabs( a.x[i]-b.x[i] )<=1e-9*s ) ) return "solutions: "+a.str( n,m )+" with, "+b.str( n,m )+" without";
	for( int i=0; i<n+m; ++i ) if ( !( fabs( a.y[i]-b.y[i] )<=1e-9*s ) ) return "multipliers: "+a.str( n,m )+" with, "+b.str( n,m )+" without";
	return "";
}
static std::vector<World> W; static std::vector<Fam> F;
template<class P> void equalRun( const World& w, int var, const std::vector<int>& h )
{
	std::string bad; long live0=live; Obs first[8];
	for( int fill=0; fill<2 && bad.empty( ); ++fill )
	{
		fillByte = fill ? 0x47 : 0;
		CP* cp=new CP( w.n,w.m ); P* p=new P( w.n,w.m ); P* t=new P( w.n,w.m ); Options o=variant( var ); o.printLevel=PL_NONE; p->setOptions( o ); t->setOptions( o ); const QP *ma=0,*mb=0;
		p->setConstraintProduct( cp ); bool installed=true;
		for( size_t i=0; i<h.size( ) && bad.empty( ); ++i )
		{
			long c0=cp->calls; Run a=step( p,w,h[i],cp,ma ), b=step( t,w,h[i],(CP*)0,mb ); mc::transition( );
			if ( h[i]==SETCP ) installed=true; if ( h[i]==CLRCP ) installed=false;
			if ( !installed && cp->calls!=c0 ) bad="callback used although it was taken away";
			if ( cp->bad ) bad="callback got an invalid constraint number, pointer or vector";
			if ( bad.empty( ) ) bad=same( a.o,b.o,w.n,w.m );
			if ( bad.empty( ) && fill ) { std::string y; if ( !sameBits( first[i],a.o,w.n,w.m,&y ) ) bad="result depends on uninitialised memory: "+y; }
			first[i]=a.o; if ( !bad.empty( ) ) bad=mc::fmt( "call %d: ",(int)i+1 )+bad;
			mc::stat( "callback evaluations",cp->calls-c0 ); mc::outcome( a.o.str( w.n,w.m ) );
		}
		delete p; delete t; delete cp;
	}
	fillByte=0; mc::traceValidated( 2 );
	if ( bad.empty( ) && live!=live0 ) bad="memory leaked";
	if ( !bad.empty( ) ) mc::fail( "product",bad );
}
template<class P> void faultRun( const World& w, int var, const std::vector<int>& h, int k, int tail )
{
	std::string bad; long live0=live;
	{
		CP* cp=new CP( w.n,w.m ); cp->failAt=k; cp->poison = k%2 ? 1e300 : -7e5; P* p=new P( w.n,w.m ); Options o=variant( var ); o.printLevel=PL_NONE; p->setOptions( o ); const QP* ma=0; p->setConstraintProduct( cp );
		bool hit=false;
		for( size_t i=0; i<h.size( ); ++i )
		{
			Run a=step( p,w,h[i],cp,ma ); mc::transition( );
			if ( cp->failed ) { hit=true; mc::evaluation( ); if ( a.o.rv==SUCCESSFUL_RETURN || a.o.solved ) bad="success reported although the callback failed: "+a.o.str( w.n,w.m ); if ( a.o.inf || a.o.unb ) bad="a failing callback was reported as an infeasible or unbounded QP: "+a.o.str( w.n,w.m ); break; }
		}
		if ( hit && bad.empty( ) )
		{
			mc::stat( "failing callback evaluations" );
			cp->failAt=-1;
			int seq[2] = { tail==0?HOT2:tail==1?HOT3:tail==2?INIT1:tail==3?RESET:MAT, tail==3?INIT0:HOT2 };
			for( int s=0; s<2 && bad.empty( ); ++s )
			{
				Run a=step( p,w,seq[s],cp,ma );
				if ( a.q && a.o.solved )
				{
					QP q=*a.q; if ( ma ) { memcpy( q.H,ma->H,sizeof( q.H ) ); memcpy( q.A,ma->A,sizeof( q.A ) ); }
					if ( isPD( q.H,q.n ) ) bad=judge( q,a.o,4,true );
				}
				if ( bad.empty( ) && ( seq[s]==INIT0 || seq[s]==INIT1 ) )
				{
					P* t=new P( w.n,w.m ); t->setOptions( o ); const QP* mb=0; Run b=step( t,w,seq[s],(CP*)0,mb ); bad=same( a.o,b.o,w.n,w.m ); delete t;
				}
				if ( !bad.empty( ) ) bad=mc::fmt( "after the failure, call %d (%s): ",s+1,ON[seq[s]] )+bad;
			}
			mc::traceValidated( );
		}
		delete p; delete cp;
	}
	if ( bad.empty( ) && live!=live0 ) bad="memory leaked";
	if ( !bad.empty( ) ) mc::fail( "product",bad );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C28","All call histories up to the depth with a constraint product callback vs without (verdicts and solutions equal, independent of uninitialised memory), every single callback evaluation failing x continuations, all members of QP families judged by the reference model.",[]
	{
		W=worlds( ); const bool T=mc::thorough; mc::registerStat( "callback evaluations" ); mc::registerStat( "failing callback evaluations" );
		static const int VARS[] = {0,2,14,1,8,5,4,7,6,3,9,10,11,12,13,15,16,17};
		for( size_t wi=0; wi<W.size( ); ++wi ) for( int c=1; c<3; ++c )
		{
			if ( W[wi].m==0 ) continue;
			std::vector<int> al; for( int o=0; o<NOPS; ++o ) if ( c==2 || o<MAT ) al.push_back( o );
			std::string nm=W[wi].name+( c==1?"_QProblem":"_SQProblem" );
			int len=T?4:3,nv=T?NVAR:5;
			mc::addSection( nm,ipow( al.size( ),len )*nv,[=]( mc::u64 i )
			{
				mc::Dec d( i ); int var=VARS[d( nv )]; std::vector<int> h; for( int k=0; k<len; ++k ) h.push_back( al[d( al.size( ) )] );
				std::string vn; variant( var,&vn ); std::string s; for( int o : h ) s+=std::string( " " )+ON[o]; mc::key( nm+" "+vn+":"+s ); mc::evaluation( );
				if ( c==1 ) equalRun<QProblem>( W[wi],var,h ); else equalRun<SQProblem>( W[wi],var,h );
			} );
			int len2=T?3:2,nv2=T?NVAR:3,K=T?24:12; std::vector<int> al2; for( int o : al ) if ( o!=SETCP && o!=CLRCP && o!=RESET ) al2.push_back( o );
			mc::addSection( nm+"_fault",ipow( al2.size( ),len2 )*nv2*K*5,[=]( mc::u64 i )
			{
				mc::Dec d( i ); int tail=d( 5 ),k=d( K )+1,var=VARS[d( nv2 )]; std::vector<int> h; for( int j=0; j<len2; ++j ) h.push_back( al2[d( al2.size( ) )] ); if ( tail==4 && c==1 ) return;
				std::string vn; variant( var,&vn ); std::string s; for( int o : h ) s+=std::string( " " )+ON[o]; mc::key( nm+" "+vn+":"+s+mc::fmt( " evaluation %d fails, then %d",k,tail ) );
				if ( c==1 ) faultRun<QProblem>( W[wi],var,h,k,tail ); else faultRun<SQProblem>( W[wi],var,h,k,tail );
			} );
		}
		F.push_back( thin( family( "F22",2,2,{2,-1,-1,2},{{1,1},{1,-1}},{{-2,1},{3,-4},{0,5}},{0,2,5,1},{0,2,3,5,6,1,7} ),T?100000:500 ) );
		F.push_back( thin( family( "F32",3,2,{2,1,0,1,2,-1,0,-1,2},{{1,1,1},{1,-1,0}},{{-2,1,3},{3,-4,1}},{0,2,5},{0,2,3,5,1} ),T?100000:500 ) );
		F.push_back( thin( family( "F23",2,3,{2,0,0,1},{{1,1},{1,-1},{2,2}},{{-2,1},{3,-4}},{0,5},{0,2,3,5,1} ),T?100000:400 ) );
		for( size_t fi=0; fi<F.size( ); ++fi )
		{
			int N=(int)F[fi].d.size( ),nv=T?NVAR:5,M=T?40:12;
			mc::addSection( F[fi].name,(mc::u64)N*M*nv,[=]( mc::u64 i )
			{
				mc::Dec d( i ); const Fam& f=F[fi]; int var=VARS[d( nv )]; const QP& a=f.d[d( N )]; const QP& b=f.d[(size_t)( ( d( M )+0.5 )*N/M )]; std::string vn; variant( var,&vn ); mc::key( vn+" "+show( a )+" then "+show( b ) ); mc::evaluation( ); std::string bad; long l0=live; bool ai=false;
				{
					CP cp( f.n,f.m ); cp.A=a.A; QProblem p( f.n,f.m ); Options o=variant( var ); o.printLevel=PL_NONE; p.setOptions( o ); p.setConstraintProduct( &cp ); QProblem t( f.n,f.m ); t.setOptions( o );
					int_t n=100,n2=100; returnValue rv=dInit( p,a,n ); Obs oa=observe( p,f.n,f.m,rv,n ); bad=judge( a,oa,judgeIdx( var ) ); ai=!isFeasible( a ); rv=dInit( t,a,n2 ); Obs ta=observe( t,f.n,f.m,rv,n2 ); if ( bad.empty( ) ) bad=same( oa,ta,f.n,f.m ); mc::transition( );
					if ( bad.empty( ) ) { n=100; n2=100; rv=dHot( p,b,n ); Obs ob=observe( p,f.n,f.m,rv,n ); rv=dHot( t,b,n2 ); Obs tb=observe( t,f.n,f.m,rv,n2 ); bad=judge( b,ob,judgeIdx( var ),ai ); if ( bad.empty( ) ) bad=same( ob,tb,f.n,f.m ); if ( !bad.empty( ) ) bad="hotstart: "+bad; mc::transition( ); mc::outcome( ob.str( f.n,f.m ) ); }
					if ( cp.bad ) bad="callback got invalid arguments"; mc::stat( "callback evaluations",cp.calls );
				}
				mc::traceValidated( ); if ( bad.empty( ) && live!=l0 ) bad="memory leaked"; if ( !bad.empty( ) ) mc::fail( "product",bad );
			} );
		}
	} );
}
