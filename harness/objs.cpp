// C11 / C12 / C13 / C29: solver objects as values.  One op alphabet, every history up to a depth, bit-exact comparison with a
// fresh object that executed the equivalent history.
#include "drv.hpp"
#include <new>
#ifndef PROP
#define PROP 11
#endif
// allocator with controllable garbage: uninitialised heap memory holds `fillByte`
static unsigned char fillByte = 0; static bool doFill = false;
void* operator new( size_t n ) { void* p = malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc( ); if ( doFill ) memset( p,fillByte,n ); return p; }
void* operator new[]( size_t n ) { return operator new( n ); }
void operator delete( void* p ) noexcept { free( p ); }
void operator delete[]( void* p ) noexcept { free( p ); }
void operator delete( void* p, size_t ) noexcept { free( p ); }
void operator delete[]( void* p, size_t ) noexcept { free( p ); }

#if PROP==11
static const char* RULE = "Every history h (all operation sequences up to the depth: initialise with 2 data sets, hotstart with 3 data sets incl. an infeasible one, interrupted hotstart, reset, change options, matrices changed) is executed on an object A; "
	"B is then created by copy construction or assigned over an object of another size and history; every continuation is run on B, on A, and after A is destroyed.  All observations (verdict, iteration counts, solutions, working set) must be bit-identical to a fresh object executing the whole history.  transitions = operations, states = distinct observations.";
#elif PROP==12
static const char* RULE = "Every history h is executed on an object, which is then reset (explicitly or implicitly by initialising it again, possibly with other matrices) and continued by every initialise+hotstart sequence; every observation must be bit-identical to a fresh object executing only the continuation.";
#elif PROP==13
static const char* RULE = "For every pair of histories (one object each, same or different classes/sizes/options) and every interleaving of their operations, each object's observations must be bit-identical to its own history executed alone.";
#else
static const char* RULE = "Every history is executed with uninitialised heap memory pre-filled with several patterns (0, NaN bits, 0x01, 0x7f, previous garbage) and stack noise; all observations must be bit-identical.";
#endif
struct World { std::string name; int n,m; std::vector<QP> d; };     // d[0],d[1]: QPs with own matrices; d[2..4]: same matrices as d[0] (parametric)
static std::vector<World> W;
// ops
enum { INIT0, INIT1, HOT2, HOT3, HOT4, CUT2, RESET, OPT, MAT1, NOPS, INITX=NOPS, INITXY, INITW, INITN, HOTN, HOTW, CUT0, NALL };
static const char* ON[] = {"init0","init1","hot2","hot3","hot4","cut2","reset","opt","mat1","initX","initXY","initW","initNoLimits","hotNoLimits","hotW","cut0"};
static const int INITS[] = {INIT0,INIT1,INITX,INITXY,INITW,INITN}; enum { NI = 6 };   // kinds of initialisation: plain, with primal guess, primal-dual guess, guessed working set, without limits
static const int EXT[] = {INITX,INITXY,INITW,INITN,HOTN,HOTW,CUT0}; enum { NEXT = 7 };
// op number i of the base alphabet of size nops followed by the extensions
static int opx( int i, int nops ) { return i<nops ? i : EXT[i-nops]; }
template<class P> struct Dim { static P* make( int n, int m ) { return new P( n,m ); } };
template<> struct Dim<QProblemB> { static QProblemB* make( int n, int ) { return new QProblemB( n ); } };
template<class P> struct HotM { static returnValue go( P& p, const QP& q, int_t& n ) { return dHot( p,q,n ); } };
template<> struct HotM<SQProblem> { static returnValue go( SQProblem& p, const QP& q, int_t& n ) { return dHotM( p,q,n ); } };

template<class P> static Obs doOp( P& p, const World& w, int op )
{
	int_t n = 100; returnValue rv = SUCCESSFUL_RETURN; Extra e;
	static const double x0[NMAX] = {0.5,-0.25,1.0}, y0[NMAX+MMAX] = {0.5,-1.0,0.0,0.25,-0.5};
	Bounds gB( w.n ); Constraints gC( w.m );
	if ( op==INITW || op==HOTW )
	{
		for( int i=0; i<w.n; ++i ) gB.setupBound( i,i==0 ? ST_LOWER : i==1 && op==HOTW ? ST_UPPER : ST_INACTIVE );
		for( int i=0; i<w.m; ++i ) gC.setupConstraint( i,i==w.m-1 && op==INITW ? ST_UPPER : ST_INACTIVE );
		e.gB = &gB; e.gC = IsSimple<P>::v ? 0 : &gC;
	}
	if ( op==INITX || op==INITXY ) e.xOpt = x0; if ( op==INITXY ) e.yOpt = y0; if ( op==INITN || op==HOTN ) e.nullMask = op==HOTN ? 15 : 10;
	switch( op )
	{
		case INIT0: rv = dInit( p,w.d[0],n ); break;
		case INIT1: rv = dInit( p,w.d[1],n ); break;
		case HOT2: rv = dHot( p,w.d[2],n ); break;
		case HOT3: rv = dHot( p,w.d[3],n ); break;
		case HOT4: rv = dHot( p,w.d[4],n ); break;
		case CUT2: n=1; rv = dHot( p,w.d[2],n ); break;
		case RESET: rv = p.reset( ); break;
		case OPT: { Options o = variant( 8 ); o.initialStatusBounds = ST_UPPER; rv = p.setOptions( o ); } break;
		case INITX: case INITXY: case INITW: case INITN: rv = dInit( p,w.d[op==INITW?0:1],n,e ); break;
		case HOTN: case HOTW: rv = dHot( p,w.d[op==HOTN?3:2],n,e ); break;
		case CUT0: n=0; rv = dHot( p,w.d[3],n ); break;
		case MAT1: rv = HotM<P>::go( p,w.d[1],n ); break;
	}
	mc::transition( );
	return observe( p,w.n,w.m,rv,n );
}
static void note( const Obs& o, const World& w ) { mc::state( mc::hashBytes( o.x,sizeof(o.x),mc::hashBytes( o.y,sizeof(o.y),mc::hashBytes( o.ws,sizeof(o.ws),o.rv*64+o.st ) ) ) ^ (mc::u64)(size_t)w.n ); }
static std::string seqStr( const std::vector<int>& h ) { std::string s; for( int o : h ) s += std::string( " " ) + ON[o]; return s; }
template<class P> static std::vector<Obs> replay( const World& w, int var, const std::vector<int>& h )
{
	P* p = Dim<P>::make( w.n,w.m ); p->setOptions( variant( var ) ); std::vector<Obs> r;
	for( int o : h ) r.push_back( doOp( *p,w,o ) );
	delete p; return r;
}
static bool same( const Obs& a, const Obs& b, const World& w, const char* cls, const std::string& what )
{
	std::string why; if ( sameBits( a,b,w.n,w.m,&why ) ) return true;
	mc::fail( cls,what + ": " + why ); return false;
}
template<class P> static void copies( const World& w, const World& w2, int var, const std::vector<int>& h, const std::vector<int>& c )
{
	std::vector<int> hc = h; hc.insert( hc.end( ),c.begin( ),c.end( ) );
	std::vector<Obs> ref = replay<P>( w,var,hc ); for( auto& o : ref ) note( o,w );
	for( int how=0; how<4; ++how )     // 0 copy construct, 1 assign to a fresh object, 2 assign over a used one of another size, 3 assign over used one of the same size
	{
		P* a = Dim<P>::make( w.n,w.m ); a->setOptions( variant( var ) ); for( int o : h ) doOp( *a,w,o );
		Obs before = observe( *a,w.n,w.m,SUCCESSFUL_RETURN,0 );
		P* b;
		if ( how==0 ) b = new P( *a );
		else { const World& u = how==2 ? w2 : w; b = Dim<P>::make( u.n,u.m ); b->setOptions( variant( how==2 ? 1 : 0 ) ); if ( how>=2 ) { doOp( *b,u,INIT1 ); doOp( *b,u,HOT3 ); } *b = *a; }
		Obs cb = observe( *b,w.n,w.m,SUCCESSFUL_RETURN,0 ), ca = observe( *a,w.n,w.m,SUCCESSFUL_RETURN,0 );
		static const char* hn[] = {"copy constructed","assigned to fresh","assigned over other size","assigned over used"};
		bool ok = same( ca,before,w,"copy-changed-original",hn[how] ) && same( cb,before,w,"copy-differs",std::string( hn[how] ) + ", state of the copy" );
		for( size_t i=0; ok && i<c.size( ); ++i ) ok = same( doOp( *b,w,c[i] ),ref[h.size( )+i],w,"copy-diverges",std::string( hn[how] ) + mc::fmt( ", step %d on the copy",(int)i ) );
		if ( ok ) ok = same( observe( *a,w.n,w.m,SUCCESSFUL_RETURN,0 ),before,w,"original-changed",std::string( hn[how] ) + ", original after using the copy" );
		if ( how==0 || how==2 )
		{
			for( size_t i=0; ok && i<c.size( ); ++i ) ok = same( doOp( *a,w,c[i] ),ref[h.size( )+i],w,"original-diverges",std::string( hn[how] ) + mc::fmt( ", step %d on the original",(int)i ) );
			delete b; delete a;
		}
		else
		{
			P* b2 = new P( *a ); delete a;    // the original dies first
			for( size_t i=0; ok && i<c.size( ); ++i ) ok = same( doOp( *b2,w,c[i] ),ref[h.size( )+i],w,"copy-diverges",std::string( hn[how] ) + mc::fmt( ", step %d on a copy whose original was destroyed",(int)i ) );
			delete b; delete b2;
		}
		if ( !ok ) return;
		mc::traceValidated( );
	}
	mc::sample( w.name + ":" + seqStr( h ) + " | copy |" + seqStr( c ) + " -> " + ref.back( ).str( w.n,w.m ) );
}
template<class P> static void resets( const World& w, int var, const std::vector<int>& h, const std::vector<int>& c )
{
	bool opt = false; for( int o : h ) if ( o==OPT ) opt = true;
	std::vector<int> pc; if ( opt ) pc.push_back( OPT ); pc.insert( pc.end( ),c.begin( ),c.end( ) );
	std::vector<Obs> ref = replay<P>( w,var,pc ); size_t off = pc.size( )-c.size( ); for( auto& o : ref ) note( o,w );
	for( int how=0; how<2; ++how )
	{
		P* a = Dim<P>::make( w.n,w.m ); a->setOptions( variant( var ) ); for( int o : h ) doOp( *a,w,o );
		if ( how ) { Obs o = doOp( *a,w,RESET ); if ( o.rv!=SUCCESSFUL_RETURN || o.inited || o.solved || o.inf || o.unb ) { mc::fail( "reset-state","after reset: " + o.str( w.n,w.m ) ); delete a; return; } }
		bool ok = true; for( size_t i=0; ok && i<c.size( ); ++i ) ok = same( doOp( *a,w,c[i] ),ref[off+i],w,how?"reset-diverges":"reinit-diverges",mc::fmt( "step %d after %s",(int)i,how?"reset":"re-initialisation" ) );
		delete a; if ( !ok ) return; mc::traceValidated( );
	}
	mc::sample( w.name + ":" + seqStr( h ) + " | reset |" + seqStr( c ) + " -> " + ref.back( ).str( w.n,w.m ) );
}
template<class P, class Q> static void interleave( const World& w, int var, const std::vector<int>& h, const World& w2, int var2, const std::vector<int>& h2 )
{
	std::vector<Obs> r1 = replay<P>( w,var,h ), r2 = replay<Q>( w2,var2,h2 ); for( auto& o : r1 ) note( o,w );
	int L = h.size( )+h2.size( );
	for( int mask=0; mask<(1<<L); ++mask )
	{
		if ( __builtin_popcount( mask )!=(int)h.size( ) ) continue;
		P* a = Dim<P>::make( w.n,w.m ); a->setOptions( variant( var ) ); Q* b = Dim<Q>::make( w2.n,w2.m ); b->setOptions( variant( var2 ) );
		size_t i=0,j=0; bool ok = true;
		for( int s=0; ok && s<L; ++s )
			if ( mask>>s&1 ) { ok = same( doOp( *a,w,h[i] ),r1[i],w,"interference",mc::fmt( "schedule %x step %d (first object)",mask,s ) ); ++i; }
			else { ok = same( doOp( *b,w2,h2[j] ),r2[j],w2,"interference",mc::fmt( "schedule %x step %d (second object)",mask,s ) ); ++j; }
		delete a; delete b; if ( !ok ) return; mc::traceValidated( );
	}
	mc::sample( w.name + ":" + seqStr( h ) + " || " + w2.name + ":" + seqStr( h2 ) );
}
static volatile double sink;
static void __attribute__((noinline)) dirtyStack( int c ) { volatile unsigned char buf[20000]; for( size_t i=0; i<sizeof(buf); ++i ) buf[i]=c; sink = buf[c%100]; }
template<class P> static void determinism( const World& w, int var, const std::vector<int>& h )
{
	static const int pat[] = {0,0xff,0x01,0x7f,0x3f}; std::vector<Obs> ref;
	for( int k=0; k<5; ++k )
	{
		dirtyStack( pat[k] ); doFill = true; fillByte = pat[k];
		std::vector<Obs> r = replay<P>( w,var,h ); doFill = false;
		if ( k==0 ) { ref = r; for( auto& o : ref ) note( o,w ); continue; }
		for( size_t i=0; i<h.size( ); ++i ) if ( !same( r[i],ref[i],w,"nondeterminism",mc::fmt( "garbage pattern %02x, step %d",pat[k],(int)i ) ) ) return;
		mc::traceValidated( );
	}
	mc::sample( w.name + ":" + seqStr( h ) + " -> " + ref.back( ).str( w.n,w.m ) );
}
static QP mk( int n, int m, std::vector<double> H, std::vector<double> g, std::vector<double> A, std::vector<int> b, std::vector<int> c )
{
	QP q; q.n=n; q.m=m; for( int i=0; i<n*n; ++i ) q.H[i]=H[i]; for( int i=0; i<n; ++i ) { q.g[i]=g[i]; q.lb[i]=RANGES[b[i]].l; q.ub[i]=RANGES[b[i]].u; }
	for( int i=0; i<n*m; ++i ) q.A[i]=A[i]; for( int i=0; i<m; ++i ) { q.lbA[i]=RANGES[c[i]].l; q.ubA[i]=RANGES[c[i]].u; } return q;
}
// histories of length <= len over ops [0,nops), as indices
static mc::u64 nHist( int nops, int len ) { mc::u64 t=0,p=1; for( int i=0; i<=len; ++i ) { t+=p; p*=nops; } return t; }
static std::vector<int> hist( mc::u64 i, int nops ) { int len=0; mc::u64 p=1; while( i>=p ) { i-=p; p*=nops; ++len; } std::vector<int> r; for( int k=0; k<len; ++k ) { r.push_back( i%nops ); i/=nops; } return r; }
// only histories that begin with an initialisation (anything before it is rejected and covered by C16)
static std::vector<int> histI( mc::u64 i, int nops ) { std::vector<int> r; r.push_back( INITS[i%NI] ); std::vector<int> t = hist( i/NI,nops ); r.insert( r.end( ),t.begin( ),t.end( ) ); return r; }
int main( int argc, char** argv )
{
	return mc::main( argc,argv,PROP==11?"C11":PROP==12?"C12":PROP==13?"C13":"C29",RULE,[]
	{
		W.clear( ); const bool T = mc::thorough; (void)T;
		auto world = [&]( const char* nm, int n, int m, std::vector<double> H, std::vector<double> A, std::vector<double> H1, std::vector<double> A1, std::vector<double> g0, std::vector<double> g1, std::vector<double> g2, std::vector<int> b0, std::vector<int> b1, std::vector<int> b2, std::vector<int> c0, std::vector<int> c1, std::vector<int> c2, std::vector<int> binf )
		{
			World w; w.name=nm; w.n=n; w.m=m; w.d.push_back( mk( n,m,H,g0,A,b0,c0 ) ); w.d.push_back( mk( n,m,H1,g1,A1,b1,c1 ) ); w.d.push_back( mk( n,m,H,g1,A,b1,c1 ) ); w.d.push_back( mk( n,m,H,g2,A,b2,c2 ) ); w.d.push_back( mk( n,m,H,g0,A,binf,c0 ) ); W.push_back( w );
		};
		std::vector<double> E;
		world( "B2",2,0,{2,-1,-1,2},E,{1,0,0,1},E,{-2,1},{3,3},{-5,4},{0,0},{2,5},{1,4},{},{},{},{0,7} );
		world( "B3",3,0,{2,1,0,1,2,-1,0,-1,2},E,{3,0,0,0,2,0,0,0,1},E,{-2,1,3},{3,3,-3},{-5,4,0},{0,0,1},{2,5,3},{1,4,0},{},{},{},{0,7,0} );
		world( "B3s",3,0,{1,-1,0,-1,1,0,0,0,0},E,{2,1,0,1,2,0,0,0,1},E,{-2,1,3},{3,3,-3},{-5,4,0},{0,0,0},{0,5,6},{5,4,0},{},{},{},{0,7,0} );
		world( "Q22",2,2,{2,-1,-1,2},{1,1,1,-1},{1,0,0,1},{2,1,0,1},{-2,1},{3,3},{-5,4},{0,0},{2,5},{1,4},{0,3},{5,0},{2,0},{0,7} );
		world( "Q32",3,2,{2,1,0,1,2,-1,0,-1,2},{1,1,1,1,-1,0},{3,0,0,0,2,0,0,0,1},{1,0,1,0,1,1},{-2,1,3},{3,3,-3},{-5,4,0},{0,0,1},{2,5,3},{1,4,0},{0,3},{5,2},{4,0},{0,7,0} );
		world( "Q22z",2,2,{0,0,0,0},{1,1,1,-1},{1,0,0,1},{2,1,0,1},{-2,1},{3,3},{-5,4},{0,0},{0,5},{0,6},{0,3},{2,0},{2,0},{0,7} );
		world( "Q33",3,3,{1,0,0,0,1,0,0,0,1},{1,1,1,1,-1,0,0,1,2},{2,1,0,1,2,0,0,0,0},{1,0,0,0,1,0,1,1,1},{-4,1,3},{3,3,-3},{-5,4,0},{0,0,0},{2,5,0},{0,4,0},{0,3,0},{5,2,0},{4,0,2},{0,7,0} );
		{   // nonconvex worlds: only sameness is demanded
		world( "B3n",3,0,{1,0,0,0,-1,0,0,0,-2},E,{1,2,0,2,-1,0,0,0,1},E,{-2,1,3},{3,3,-3},{-5,-4,1},{0,0,0},{0,5,6},{0,0,1},{},{},{},{0,7,0} );
		world( "Q33n",3,3,{1,0,0,0,-1,0,0,0,-2},{1,1,1,1,-1,0,0,1,2},{-1,2,0,2,1,1,0,1,-1},{1,0,0,0,1,0,1,1,1},{-4,1,3},{3,3,-3},{-5,4,-1},{0,0,0},{0,5,0},{0,6,0},{0,5,0},{5,2,0},{0,0,2},{0,7,0} );
		world( "Q32n",3,2,{1,2,0,2,-1,0,0,0,-2},{1,1,1,1,-1,0},{-1,2,0,2,1,1,0,1,-1},{1,0,0,0,1,0},{-4,1,3},{3,3,-3},{-5,4,-1},{0,0,0},{0,5,0},{0,6,0},{0,5},{5,2},{0,0},{0,7,0} );
		}
		static const int VARS[] = {0,1,14,2,3,7,12,10,4};
		auto cls = []( size_t wi ) { return W[wi].m==0 ? 2 : 2; };
		(void)cls;
		for( size_t wi=0; wi<W.size( ); ++wi )
		{
			for( int c=0; c<3; ++c )
			{
				if ( ( c==0 ) != ( W[wi].m==0 ) && !( c==1 && wi==1 ) ) continue;      // QProblemB for bound-only worlds, QProblem/SQProblem for others; QProblem with nC=0 for one
				int nops = c==2 ? NOPS : MAT1; size_t w2 = wi; do w2 = ( w2+1 )%W.size( ); while( ( W[w2].m==0 ) != ( c==0 ) );
				#define DISP( FN,... ) ( c==0 ? FN<QProblemB>( __VA_ARGS__ ) : c==1 ? FN<QProblem>( __VA_ARGS__ ) : FN<SQProblem>( __VA_ARGS__ ) )
				std::string nm = W[wi].name + ( c==0?"_QProblemB":c==1?"_QProblem":"_SQProblem" );
				#if PROP==11
				int lh = T?3:2, lc = 2, nv = T?9:4; mc::u64 nh1 = NI*nHist( nops,lh-1 ), nl = 1; for( int i=0; i<lh; ++i ) nl *= nops; mc::u64 nh = nh1+2*nl, nc = nHist( nops,lc )-1+NEXT;
				mc::addSection( nm,nh*nc*nv,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( nv )]; mc::u64 ci=d( nc ); std::vector<int> cc, h; if ( ci<NEXT ) cc.push_back( EXT[ci] ); else cc = hist( 1+ci-NEXT,nops ); mc::u64 k=d( nh ); 
					if ( k>0 && k<nh1 ) h = histI( k,nops );
					else if ( k>=nh1 ) { k -= nh1; h.push_back( k%2 ? INIT1 : INIT0 ); k /= 2; for( int l=0; l<lh; ++l ) { h.push_back( k%nops ); k /= nops; } }
					std::string vn; variant( var,&vn ); mc::key( nm + " " + vn + ":" + seqStr( h ) + " |" + seqStr( cc ) ); mc::evaluation( );
					DISP( copies,W[wi],W[w2],var,h,cc );
				} );
				#elif PROP==12
				int lh = T?4:3, nv = T?9:4; mc::u64 nh = NI*nHist( nops,lh-1 ), nc = NI*( nops+NEXT );
				mc::addSection( nm,nh*nc*nv,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( nv )]; std::vector<int> cc; cc.push_back( INITS[d( NI )] ); cc.push_back( opx( d( nops+NEXT ),nops ) ); std::vector<int> h = histI( d( nh ),nops );
					std::string vn; variant( var,&vn ); mc::key( nm + " " + vn + ":" + seqStr( h ) + " |" + seqStr( cc ) ); mc::evaluation( );
					DISP( resets,W[wi],var,h,cc );
				} );
				#elif PROP==13
				mc::u64 nh = NI*nHist( nops,T?2:1 ); int nv=2;
				for( int c2=0; c2<3; ++c2 )
				{
					size_t v2 = c2==0 ? 1 : w2<3 ? 4 : w2; int nops2 = c2==2?NOPS:MAT1; mc::u64 nh2 = NI*nHist( nops2,T?2:1 );
					mc::addSection( nm + mc::fmt( "_vs%d",c2 ),nh*nh2*nv*nv,[=]( mc::u64 i )
					{
						mc::Dec d( i ); int var=VARS[d( nv )*2], var2=VARS[1+d( nv )*3]; std::vector<int> h=histI( d( nh ),nops ), h2=histI( d( nh2 ),nops2 );
						std::string vn,vn2; variant( var,&vn ); variant( var2,&vn2 ); mc::key( nm + " " + vn + ":" + seqStr( h ) + mc::fmt( " || class%d ",c2 ) + vn2 + seqStr( h2 ) ); mc::evaluation( );
						#define D2( PP ) ( c2==0 ? interleave<PP,QProblemB>( W[wi],var,h,W[v2],var2,h2 ) : c2==1 ? interleave<PP,QProblem>( W[wi],var,h,W[v2],var2,h2 ) : interleave<PP,SQProblem>( W[wi],var,h,W[v2],var2,h2 ) )
						if ( c==0 ) D2( QProblemB ); else if ( c==1 ) D2( QProblem ); else D2( SQProblem );
					} );
				}
				#else
				int lh = T?5:4, nv = T?9:6; mc::u64 nh = NI*nHist( nops,lh-2 )*( nops+NEXT );
				mc::addSection( nm,nh*nv,[=]( mc::u64 i )
				{
					mc::Dec d( i ); int var=VARS[d( nv )]; int last=opx( d( nops+NEXT ),nops ); std::vector<int> h=histI( d( nh ),nops ); h.push_back( last );
					std::string vn; variant( var,&vn ); mc::key( nm + " " + vn + ":" + seqStr( h ) ); mc::evaluation( );
					DISP( determinism,W[wi],var,h );
				} );
				#endif
			}
		}
	} );
}
