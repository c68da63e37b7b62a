// C27: online QP benchmark interface: reading problem sequences from directories, solving them, statistics.
#include "drv.hpp"
#include <new>
#include <sys/time.h>
#include <sys/stat.h>
#include <qpOASES/extras/OQPinterface.hpp>
static const char* RULE = "Every sequence of up to 3 QPs out of a list per world is executed through solveOqpBenchmark (dense/sparse, with/without hotstarts, every iteration limit 0..4 and 100, several CPU time limits under a virtual clock), through its short form and through runOqpBenchmark on a directory, "
	"and compared with the same calls made directly on a solver object: return code, iteration and time statistics bit-exactly, residuals against an independent evaluation.  Reading is executed for every combination of requested outputs with each fault of each file: error code iff a requested file is unusable, values exact, nothing leaked, no uninitialised value used (two heap fill patterns).";
static long long tick=0; static bool fake=false;
extern "C" int gettimeofday( struct timeval* tv, void* ) { if ( fake ) ++tick; tv->tv_sec = 1000 + tick/4; tv->tv_usec = 250000*( tick%4 ); return 0; }
static int fill=0x7f; static long long live=0;
void* operator new( size_t n ) { void* p = malloc( n?n:1 ); if ( !p ) throw std::bad_alloc( ); memset( p,fill,n ); ++live; return p; }
void* operator new[]( size_t n ) { return operator new( n ); }
void operator delete( void* p ) noexcept { if ( p ) --live; free( p ); }
void operator delete[]( void* p ) noexcept { if ( p ) --live; free( p ); }
void operator delete( void* p, size_t ) noexcept { if ( p ) --live; free( p ); }
void operator delete[]( void* p, size_t ) noexcept { if ( p ) --live; free( p ); }

static std::string dir;
static std::string my( ) { std::string d = dir + mc::fmt( "/w%d/",mc::self ); mkdir( d.c_str( ),0700 ); return d; }
static void put( const std::string& f, const std::string& s ) { FILE* o = fopen( f.c_str( ),"wb" ); fwrite( s.data( ),1,s.size( ),o ); fclose( o ); }
static std::string text( const std::vector<double>& v, int cols ) { std::string s; for( size_t i=0; i<v.size( ); ++i ) s += mc::fmt( "%.17g%s",v[i],(int)(i+1)%cols?" ":"\n" ); return s; }

struct Seq { int nQP,n,m; std::vector<double> H,g,A,lb,ub,lbA,ubA,x,y,obj; };
static Seq build( const std::vector<QP>& l, const std::vector<int>& idx )
{
	Seq s; s.nQP=(int)idx.size( ); s.n=l[0].n; s.m=l[0].m; int n=s.n,m=s.m;
	s.H.assign( l[0].H,l[0].H+n*n ); s.A.assign( l[0].A,l[0].A+m*n );
	for( int k : idx )
	{
		const QP& q=l[k]; s.g.insert( s.g.end( ),q.g,q.g+n ); s.lb.insert( s.lb.end( ),q.lb,q.lb+n ); s.ub.insert( s.ub.end( ),q.ub,q.ub+n ); s.lbA.insert( s.lbA.end( ),q.lbA,q.lbA+m ); s.ubA.insert( s.ubA.end( ),q.ubA,q.ubA+m );
		for( int i=0; i<n; ++i ) s.x.push_back( k+0.25*i-1.0/3 ); for( int i=0; i<n+m; ++i ) s.y.push_back( -k+0.125*i ); s.obj.push_back( k*1.5 );
	}
	return s;
}
static const char* NAMES[] = {"dims","H","g","lb","ub","A","lbA","ubA","x_opt","y_opt","obj_opt"};
static std::vector<std::string> contents( const Seq& s )
{
	return { mc::fmt( "%d\n%d\n%d\n%d\n",s.nQP,s.n,s.m,0 ),text( s.H,s.n ),text( s.g,s.n ),text( s.lb,s.n ),text( s.ub,s.n ),text( s.A,s.n ),text( s.lbA,s.m?s.m:1 ),text( s.ubA,s.m?s.m:1 ),text( s.x,s.n ),text( s.y,s.n+s.m ),text( s.obj,1 ) };
}
static void writeDir( const std::string& d, const Seq& s ) { std::vector<std::string> c=contents( s ); for( int i=0; i<11; ++i ) put( d+NAMES[i]+".oqp",c[i] ); }

struct Res { int rv; double maxN,avgN,maxT,avgT,st,fe,cm; bool exact; };
static void kktRef( const Seq& s, int k, const double* x, const double* y, double& st, double& fe, double& cm )
{
	int n=s.n,m=s.m; st=fe=cm=0;
	for( int i=0; i<n; ++i ) { double r=s.g[k*n+i]-y[i]; for( int j=0; j<n; ++j ) r+=s.H[i*n+j]*x[j]; for( int j=0; j<m; ++j ) r-=s.A[j*n+i]*y[n+j]; st=std::max( st,fabs( r ) ); }
	for( int i=0; i<n+m; ++i )
	{
		double v=0; if ( i<n ) v=x[i]; else for( int j=0; j<n; ++j ) v+=s.A[(i-n)*n+j]*x[j];
		double l=i<n?s.lb[k*n+i]:s.lbA[k*m+i-n], u=i<n?s.ub[k*n+i]:s.ubA[k*m+i-n];
		fe=std::max( fe,std::max( l-v,v-u ) );
		if ( y[i]>0 ) cm=std::max( cm,fabs( (v-l)*y[i] ) ); if ( y[i]<0 ) cm=std::max( cm,fabs( (v-u)*y[i] ) );
	}
}
template<class P> struct Drive;
template<> struct Drive<QProblem>
{
	static QProblem* mk( const Seq& s ) { return new QProblem( s.n,s.m ); }
	static returnValue init( QProblem& p, const Seq& s, SymmetricMatrix* H, Matrix* A, int k, int_t& n, real_t* t ) { return p.init( H,&s.g[k*s.n],A,&s.lb[k*s.n],&s.ub[k*s.n],&s.lbA[k*s.m],&s.ubA[k*s.m],n,t ); }
	static returnValue hot( QProblem& p, const Seq& s, int k, int_t& n, real_t* t ) { return p.hotstart( &s.g[k*s.n],&s.lb[k*s.n],&s.ub[k*s.n],&s.lbA[k*s.m],&s.ubA[k*s.m],n,t ); }
};
template<> struct Drive<QProblemB>
{
	static QProblemB* mk( const Seq& s ) { return new QProblemB( s.n ); }
	static returnValue init( QProblemB& p, const Seq& s, SymmetricMatrix* H, Matrix*, int k, int_t& n, real_t* t ) { return p.init( H,&s.g[k*s.n],&s.lb[k*s.n],&s.ub[k*s.n],n,t ); }
	static returnValue hot( QProblemB& p, const Seq& s, int k, int_t& n, real_t* t ) { return p.hotstart( &s.g[k*s.n],&s.lb[k*s.n],&s.ub[k*s.n],n,t ); }
};
template<class P> static Res direct( const Seq& s, bool sparse, bool hot, const Options& o, int_t lim, double T )
{
	Res r; memset( (void*)&r,0,sizeof(r) ); r.exact=true;
	std::vector<double> Hc=s.H,Ac=s.A; Ac.resize( s.m*s.n+1 ); SymmetricMatrix* H; Matrix* A;
	if ( sparse ) { SymSparseMat* Hs = new SymSparseMat( s.n,s.n,s.n,Hc.data( ) ); Hs->createDiagInfo( ); H=Hs; A=new SparseMatrixRow( s.m,s.n,s.n,Ac.data( ) ); }
	else { H=new SymDenseMat( s.n,s.n,s.n,Hc.data( ) ); A=new DenseMatrix( s.m,s.n,s.n,Ac.data( ) ); }
	P* p = Drive<P>::mk( s ); p->setOptions( o ); std::vector<double> x( s.n,0.0 ),y( s.n+s.m,0.0 );
	for( int k=0; k<s.nQP; ++k )
	{
		int_t n=lim; real_t t=T; returnValue rv = ( k==0 || !hot ) ? Drive<P>::init( *p,s,H,A,k,n,&t ) : Drive<P>::hot( *p,s,k,n,&t );
		mc::transition( );
		if ( rv!=SUCCESSFUL_RETURN && rv!=RET_MAX_NWSR_REACHED ) { r.rv=(int)rv; break; }
		if ( p->getPrimalSolution( x.data( ) )!=SUCCESSFUL_RETURN || p->getDualSolution( y.data( ) )!=SUCCESSFUL_RETURN ) r.exact=false;   // no solution: residuals not specified
		double a,b,c; kktRef( s,k,x.data( ),y.data( ),a,b,c );
		r.maxN=std::max( r.maxN,(double)n ); r.avgN+=n; r.maxT=std::max( r.maxT,t ); r.avgT+=t; r.st=std::max( r.st,a ); r.fe=std::max( r.fe,b ); r.cm=std::max( r.cm,c );
	}
	r.avgN/=s.nQP; r.avgT/=s.nQP;
	delete p; delete H; delete A;
	return r;
}
static bool nearly( double a, double b ) { return fabs( a-b )<=1e-9*( 1+fabs( b ) ); }
static std::string show( const Res& r ) { return mc::fmt( "rv=%d maxNWSR=%g avg=%g time=%g avg=%g residuals %g %g %g",r.rv,r.maxN,r.avgN,r.maxT,r.avgT,r.st,r.fe,r.cm ); }
static void compare( const Res& a, const Res& b, const char* what, bool averages = true )
{
	mc::evaluation( );
	bool ok = a.rv==b.rv; const char* w="return code";
	if ( ok && a.rv==0 )
	{
		if ( a.maxN!=b.maxN || ( averages && a.avgN!=b.avgN ) ) { ok=false; w="iteration statistics"; }
		else if ( a.maxT!=b.maxT || ( averages && a.avgT!=b.avgT ) ) { ok=false; w="time statistics"; }
		else if ( b.exact && !( nearly( a.st,b.st ) && nearly( a.fe,b.fe ) && nearly( a.cm,b.cm ) ) ) { ok=false; w="residuals"; }
	}
	if ( !ok ) mc::fail( std::string( what )+"-"+w,"interface: "+show( a )+" direct calls: "+show( b ) );
}
struct World { std::string name; std::vector<QP> l; };
static std::vector<World> W;
static QP mkqp( int n, int m, std::vector<double> H, std::vector<double> g, std::vector<double> A, std::vector<double> lb, std::vector<double> ub, std::vector<double> lbA, std::vector<double> ubA )
{ QP q; q.n=n; q.m=m; for( int i=0;i<n*n;++i ) q.H[i]=H[i]; for( int i=0;i<n;++i ) { q.g[i]=g[i]; q.lb[i]=lb[i]; q.ub[i]=ub[i]; } for( int i=0;i<n*m;++i ) q.A[i]=A[i]; for( int i=0;i<m;++i ) { q.lbA[i]=lbA[i]; q.ubA[i]=ubA[i]; } return q; }
static const double TL[] = {1e6,0.5,1.5,3,0};
static const int NL[] = {100,0,1,2,3,4};
static void solveCase( const World& w, const std::vector<int>& idx, int var, bool sparse, bool hot, int lim, double T )
{
	Seq s = build( w.l,idx ); Options o = variant( var ); bool full = s.m>0;
	mc::state( mc::hashStr( w.name+text( s.g,1 )+text( s.lb,1 )+mc::fmt( "%d%d%d%d%g",var,sparse,hot,lim,T ) ) );
	fake=true; tick=0;
	Res ref = full ? direct<QProblem>( s,sparse,hot,o,lim,T ) : direct<QProblemB>( s,sparse,hot,o,lim,T );
	std::string first;
	const std::string d = my( ); writeDir( d,s );
	for( int pat=0; pat<2; ++pat ) for( int way=0; way<4; ++way )      // arrays long, arrays short, directory long, directory short
	{
		if ( ( way&1 ) && !hot ) continue;
		fill = pat ? 0x3d : 0xff; Res a; memset( (void*)&a,0,sizeof(a) ); a.maxT=T; int_t n=lim; real_t N=-5,AN=-5,AT=-5; tick=0; BooleanType sp = sparse?BT_TRUE:BT_FALSE, hs = hot?BT_TRUE:BT_FALSE;
		long long before=live; std::vector<double> A1 = s.A; A1.resize( s.m*s.n+1 );
		before=live;
		if ( way==0 && full ) a.rv = solveOqpBenchmark( s.nQP,s.n,s.m,0,s.H.data( ),s.g.data( ),A1.data( ),s.lb.data( ),s.ub.data( ),s.lbA.data( ),s.ubA.data( ),sp,hs,o,lim,N,AN,a.maxT,AT,a.st,a.fe,a.cm );
		if ( way==0 && !full ) a.rv = solveOqpBenchmark( s.nQP,s.n,s.H.data( ),s.g.data( ),s.lb.data( ),s.ub.data( ),sp,hs,o,lim,N,AN,a.maxT,AT,a.st,a.fe,a.cm );
		if ( way==1 && full ) a.rv = solveOqpBenchmark( s.nQP,s.n,s.m,0,s.H.data( ),s.g.data( ),A1.data( ),s.lb.data( ),s.ub.data( ),s.lbA.data( ),s.ubA.data( ),sp,o,n,a.maxT,a.st,a.fe,a.cm );
		if ( way==1 && !full ) a.rv = solveOqpBenchmark( s.nQP,s.n,s.H.data( ),s.g.data( ),s.lb.data( ),s.ub.data( ),sp,o,n,a.maxT,a.st,a.fe,a.cm );
		if ( way==2 ) a.rv = runOqpBenchmark( d.c_str( ),sp,hs,o,lim,N,AN,a.maxT,AT,a.st,a.fe,a.cm );
		if ( way==3 ) a.rv = runOqpBenchmark( d.c_str( ),sp,o,n,a.maxT,a.st,a.fe,a.cm );
		if ( live!=before ) mc::fail( "leak",mc::fmt( "way %d: %lld blocks not freed, rv=%d",way,live-before,a.rv ) );
		mc::transition( );
		a.maxN = ( way&1 ) ? (double)n : N; a.avgN=AN; a.avgT=AT;
		static const char* WN[] = {"solve","solve-short","run","run-short"};
		compare( a,ref,WN[way],!( way&1 ) );
		// no dependence on memory contents
		std::string sig = mc::fmt( "%d",a.rv ); if ( a.rv==0 ) sig += mc::fmt( " %.17g %.17g %.17g %.17g %.17g",a.maxN,a.maxT,a.st,a.fe,a.cm );
		if ( first.empty( ) ) first=sig; else if ( sig!=first ) mc::fail( "memory-dependent",mc::fmt( "way %d pattern %d: %s, before: %s",way,pat,sig.c_str( ),first.c_str( ) ) );
		mc::outcome( sig );
	}
	mc::sample( w.name + ": " + show( ref ) );
	fake=false; fill=0x7f;
}
// ---- reading
enum { R_GOOD, R_MISSING, R_EMPTY, R_DIR, R_SHORT1, R_HALF, R_GARB_FIRST, R_GARB_LAST, NRF };
static void readCase( const World& w, int nQP, int file, int fault, int req )      // req: bit0 A,lbA,ubA requested; 1 x; 2 y; 3 obj
{
	std::vector<int> idx; for( int k=0; k<nQP; ++k ) idx.push_back( k%(int)w.l.size( ) );
	Seq s = build( w.l,idx ); const std::string d = my( ); writeDir( d,s ); std::string f = d+NAMES[file]+".oqp";
	std::string c = contents( s )[file]; std::vector<std::string> t; { size_t p=0; while( p<c.size( ) ) { size_t e=c.find_first_of( " \n",p ); if ( e==std::string::npos ) e=c.size( ); if ( e>p ) t.push_back( c.substr( p,e-p ) ); p=e+1; } }
	bool used = file==0 || ( file>=1 && file<=4 ) || ( file>=5 && file<=7 && s.m>0 ) || ( file==8 && (req&2) ) || ( file==9 && (req&4) ) || ( file==10 && (req&8) );
	if ( fault && t.empty( ) && fault>=R_SHORT1 ) return;
	bool isDir=false;
	switch( fault )
	{
		case R_MISSING: unlink( f.c_str( ) ); break;
		case R_EMPTY: put( f,"" ); break;
		case R_DIR: unlink( f.c_str( ) ); mkdir( f.c_str( ),0700 ); isDir=true; break;
		case R_SHORT1: t.pop_back( ); break;
		case R_HALF: t.resize( t.size( )/2 ); break;
		case R_GARB_FIRST: t[0]="abc"; break;
		case R_GARB_LAST: t.back( )="?"; break;
	}
	if ( fault>=R_SHORT1 ) { std::string o; for( auto& q : t ) o+=q+" "; put( f,o ); }
	int_t a=-1,b=-1,e=-1,ec=-1; real_t *H=0,*g=0,*A=0,*lb=0,*ub=0,*lbA=0,*ubA=0,*x=0,*y=0,*ob=0;
	bool wantErr = ( fault && used ) || ( s.m>0 && !(req&1) );
	long long before=live;
	returnValue rv = readOqpData( d.c_str( ),a,b,e,ec,&H,&g,(req&1)?&A:0,&lb,&ub,(req&1)?&lbA:0,(req&1)?&ubA:0,(req&2)?&x:0,(req&4)?&y:0,(req&8)?&ob:0 );
	mc::evaluation( ); mc::transition( );
	mc::outcome( mc::fmt( "read %d %d %d %d",file,fault,req,(int)rv ) );
	if ( wantErr && rv==SUCCESSFUL_RETURN ) mc::fail( "read-accepted","unreadable data accepted" );
	if ( !wantErr && rv!=SUCCESSFUL_RETURN ) mc::fail( "read-refused",mc::fmt( "readable data refused: %d",(int)rv ) );
	if ( rv==SUCCESSFUL_RETURN )
	{
		bool ok = a==s.nQP && b==s.n && e==s.m && ec==0;
		#define EQ( p,v ) for( size_t i=0; i<v.size( ); ++i ) if ( !p || p[i]!=v[i] ) ok=false;
		EQ( H,s.H ) EQ( g,s.g ) EQ( lb,s.lb ) EQ( ub,s.ub ) if ( s.m ) { EQ( A,s.A ) EQ( lbA,s.lbA ) EQ( ubA,s.ubA ) } else if ( A || lbA || ubA ) ok=false;
		if ( req&2 ) EQ( x,s.x ) if ( req&4 ) EQ( y,s.y ) if ( req&8 ) EQ( ob,s.obj )
		if ( !ok ) mc::fail( "read-values","data read differ from the files" );
		delete[] H; delete[] g; delete[] A; delete[] lb; delete[] ub; delete[] lbA; delete[] ubA; delete[] x; delete[] y; delete[] ob;
	}
	if ( live!=before ) mc::fail( "read-leak",mc::fmt( "%lld blocks not freed, rv=%d",live-before,(int)rv ) );
	// the whole benchmark with the same files
	if ( req==1 )
	{
		int_t n=100; real_t T=1e6,st,fe,cm; before=live; rv = runOqpBenchmark( d.c_str( ),BT_FALSE,variant( 0 ),n,T,st,fe,cm ); bool run = fault && file<=7 && used;
		if ( run && rv==SUCCESSFUL_RETURN ) mc::fail( "run-accepted","unreadable benchmark reported as solved" );
		if ( run && rv!=RET_UNABLE_TO_READ_BENCHMARK && rv!=SUCCESSFUL_RETURN ) mc::fail( "run-code",mc::fmt( "unreadable benchmark reported as %d",(int)rv ) );
		if ( live!=before ) mc::fail( "run-leak",mc::fmt( "%lld blocks not freed",live-before ) );
	}
	if ( isDir ) rmdir( f.c_str( ) );
}
static void setup( )
{
	const std::vector<double> H2 = {2,1,1,2};
	W.push_back( { "b1",{ mkqp( 1,0,{2},{1},{},{-1},{1},{},{} ),mkqp( 1,0,{2},{-3},{},{0},{1},{},{} ),mkqp( 1,0,{2},{-3},{},{1},{0},{},{} ) } } );
	W.push_back( { "b2",{ mkqp( 2,0,H2,{1,-1},{},{-1,-1},{1,1},{},{} ),mkqp( 2,0,H2,{-4,3},{},{0,-1},{1,0.5},{},{} ),mkqp( 2,0,H2,{0,0},{},{0.5,0.25},{1,1},{},{} ),mkqp( 2,0,H2,{0,0},{},{0.5,1},{1,0},{},{} ) } } );
	W.push_back( { "c21",{ mkqp( 2,1,H2,{1,-1},{1,1},{-1,-1},{1,2},{0},{1} ),mkqp( 2,1,H2,{-2,1},{1,1},{0,-1},{1,1},{0.5},{1.5} ),mkqp( 2,1,H2,{3,3},{1,1},{-INF,-INF},{INF,INF},{1},{1} ),mkqp( 2,1,H2,{1,1},{1,1},{-1,-1},{1,1},{3},{4} ) } } );
	W.push_back( { "c23",{ mkqp( 2,3,{2,0,0,1},{1,-1},{1,2,1,-1,0,1},{-1,-1},{1,1},{-1,-1,-0.5},{1,1,0.5} ),mkqp( 2,3,{2,0,0,1},{-5,4},{1,2,1,-1,0,1},{-INF,-1},{1,INF},{-1,-INF,0},{1,1,0} ),mkqp( 2,3,{2,0,0,1},{2,2},{1,2,1,-1,0,1},{0,0},{1,1},{1,0,-1},{2,1,1} ) } } );
	W.push_back( { "lp",{ mkqp( 2,1,{0,0,0,0},{1,-1},{1,1},{-1,-1},{1,1},{-1},{1} ),mkqp( 2,1,{0,0,0,0},{-1,-2},{1,1},{-1,-1},{1,1},{0},{0.5} ),mkqp( 2,1,{0,0,0,0},{1,1},{1,1},{-1,-INF},{1,1},{-INF},{1} ) } } );
	const int nv = mc::thorough ? 14 : 4, nl = mc::thorough ? 6 : 5;
	for( size_t w=0; w<W.size( ); ++w )
	{
		int L=(int)W[w].l.size( ); mc::u64 seqs=L+L*L+( mc::thorough || w<4 ? L*L*L : 0 );
		mc::addSection( "solve-"+W[w].name,seqs*nv*4*nl*5,[=]( mc::u64 i ) {
			mc::Dec d( i ); int q=d( seqs ),v=d( nv ),sp=d( 2 ),hs=d( 2 ),l=d( nl ),t=d( 5 ); if ( l && t ) return;
			std::vector<int> idx; if ( q<L ) idx={q}; else if ( q<L+L*L ) { q-=L; idx={q%L,q/L}; } else { q-=L+L*L; idx={q%L,q/L%L,q/L/L}; }
			std::string s; for( int k : idx ) s+=mc::fmt( "%d",k );
			mc::key( mc::fmt( "solve %s %s var%d sparse%d hot%d limit %d time %g",W[w].name.c_str( ),s.c_str( ),v,sp,hs,NL[l],TL[t] ) );
			solveCase( W[w],idx,v,sp,hs,NL[l],TL[t] );
		} );
	}
	mc::addSection( "read",(mc::u64)W.size( )*3*11*NRF*16,[=]( mc::u64 i ) {
		mc::Dec d( i ); int w=d( W.size( ) ),n=1+d( 3 ),f=d( 11 ),k=d( NRF ),r=d( 16 );
		mc::key( mc::fmt( "read %s nQP%d file %s fault%d outputs%d",W[w].name.c_str( ),n,NAMES[f],k,r ) );
		readCase( W[w],n,f,k,r );
	} );
	// dimensions
	mc::addSection( "dims",7*7*7*7,[=]( mc::u64 i ) {
		mc::Dec d( i ); static const int V[]={1,2,3,0,-1,-2,7}; int v[4]={V[d( 7 )],V[d( 7 )],V[d( 7 )],V[d( 7 )]}; mc::key( mc::fmt( "dims %d %d %d %d",v[0],v[1],v[2],v[3] ) );
		const std::string p=my( ); put( p+"dims.oqp",mc::fmt( "%d %d\n%d\n%d\n",v[0],v[1],v[2],v[3] ) ); int_t a=-9,b=-9,c=-9,e=-9; returnValue rv = readOqpDimensions( p.c_str( ),a,b,c,e );
		mc::evaluation( ); mc::transition( ); bool ok = v[0]>0 && v[1]>0 && v[2]>=0 && v[3]>=0; mc::outcome( mc::fmt( "dims %d%d%d%d %d",v[0],v[1],v[2],v[3],(int)rv ) );
		if ( ok != ( rv==SUCCESSFUL_RETURN ) ) mc::fail( "dims",mc::fmt( "rv=%d",(int)rv ) );
		if ( ok && ( a!=v[0] || b!=v[1] || c!=v[2] || e!=v[3] ) ) mc::fail( "dims-values","wrong values" );
		if ( !ok ) { int_t n=100; real_t T=1,x,y,z; if ( runOqpBenchmark( p.c_str( ),BT_FALSE,variant( 0 ),n,T,x,y,z )==SUCCESSFUL_RETURN ) mc::fail( "dims-run","inconsistent dimensions accepted" ); }
	} );
}
#include <sys/stat.h>
int main( int argc, char** argv )
{
	char t[] = "/tmp/qpoqpXXXXXX"; if ( !mkdtemp( t ) ) { perror( "mkdtemp" ); return 2; } dir = t;
	int r = mc::main( argc,argv,"C27",RULE,setup );
	std::string cmd = "rm -rf '" + dir + "'"; if ( dir.compare( 0,10,"/tmp/qpoqp" )==0 && dir.size( )==16 ) { if ( system( cmd.c_str( ) ) ) {} }
	return r;
}
