// C22: file input and output.  Round trips, truncation at every byte, replacement of every byte, write faults at every byte,
// solver-level equivalence of files and arrays with every fault in every file.
#include "drv.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
static const char* RULE = "All vectors/matrices of listed special values are written and read back bit-exactly; every file is truncated at every byte and has every byte replaced by each of 9 characters; every write is executed with a file size limit at every byte "
	"(a short write must be reported); solver objects of all three classes initialised and hotstarted from files (every subset of optional files) must be bit-identical to the array interface, and each fault of each file must be reported while the object keeps working; MAT files are parsed by an independent reader.";
static std::string dir; // scratch directory, one per run
static std::string path( const char* n ) { return dir + mc::fmt( "/%d_%s",mc::self,n ); }
static void put( const std::string& f, const std::string& s ) { FILE* o = fopen( f.c_str( ),"wb" ); fwrite( s.data( ),1,s.size( ),o ); fclose( o ); }
static std::string get( const std::string& f ) { std::string s; FILE* o = fopen( f.c_str( ),"rb" ); if ( !o ) return s; int c; while( (c=fgetc( o ))!=EOF ) s += (char)c; fclose( o ); return s; }
static const double SPEC[] = { 0,-0.0,1,-1,1.0/3,-2.0/7,1e300,-1e-300,4.9406564584124654e-324,1.7976931348623157e308,1e20,-1e20,HUGE_VAL,-HUGE_VAL,123456789.123456789,2.2204460492503131e-16 };
static const long ISPEC[] = { 0,1,-1,2147483647L,-2147483648L,2147483648L,9007199254740993L,9223372036854775807L,(-9223372036854775807L-1) };
static bool same( double a, double b ) { return memcmp( &a,&b,8 )==0; }

// ---- independent reader: whitespace separated tokens
enum Want { MUST, MUSTNOT, EITHER };
static Want expected( const std::string& s, size_t need, std::vector<double>& out, bool integers )
{
	size_t p=0; out.clear( );
	while( out.size( )<need )
	{
		while( p<s.size( ) && isspace( (unsigned char)s[p] ) ) ++p;
		if ( p>=s.size( ) ) return MUSTNOT;
		size_t e=p; while( e<s.size( ) && !isspace( (unsigned char)s[e] ) ) ++e;
		std::string t = s.substr( p,e-p ); if ( t.size( ) != strlen( t.c_str( ) ) ) { if ( t[0]==0 ) return MUSTNOT; return EITHER; }
		char* end; errno=0; double v = integers ? (double)strtol( t.c_str( ),&end,10 ) : strtod( t.c_str( ),&end );
		if ( end==t.c_str( ) ) { char c=t[0]; return ( c=='+' || c=='-' || c=='.' || isalpha( c ) ) && !integers ? ( t.size( )==1 || !isdigit( t[1] ) ? MUSTNOT : EITHER ) : MUSTNOT; }
		if ( *end ) return EITHER;
		if ( t.find_first_of( "xXnNiI" )!=std::string::npos ) return EITHER;
		out.push_back( v ); p=e;
	}
	return MUST;
}
static void readCheck( const std::string& content, size_t rows, size_t cols, const char* what )
{
	const std::string f = path( "r" ); put( f,content );
	const size_t n = rows*cols; std::vector<double> ref, buf( n+1,77.25 );
	Want w = expected( content,n,ref,false );
	returnValue rv = readFromFile( buf.data( ),(int_t)rows,(int_t)cols,f.c_str( ) );
	mc::evaluation( ); mc::transition( );
	mc::outcome( mc::fmt( "%s %d %d",what,(int)w,(int)rv ),true );
	if ( buf[n]!=77.25 ) mc::fail( "overrun","readFromFile wrote behind the vector" );
	if ( w==MUST )
	{
		if ( rv!=SUCCESSFUL_RETURN ) { mc::fail( std::string( what )+"-refused",mc::fmt( "good file refused (%d): ",(int)rv )+content ); return; }
		for( size_t i=0; i<n; ++i ) if ( !( buf[i]==ref[i] ) && ref[i]==ref[i] ) { mc::fail( std::string( what )+"-value",mc::fmt( "entry %d read as %.17g, file has %.17g: ",(int)i,buf[i],ref[i] )+content ); return; }
	}
	else if ( w==MUSTNOT && rv==SUCCESSFUL_RETURN ) mc::fail( std::string( what )+"-accepted",mc::fmt( "%d values needed, file incomplete or not numeric but accepted: '",(int)n )+content+"'" );
}
static void readCheckI( const std::string& content, size_t n, const char* what )
{
	const std::string f = path( "i" ); put( f,content );
	std::vector<double> ref; std::vector<int_t> buf( n+1,77 );
	Want w = expected( content,n,ref,true );
	returnValue rv = readFromFile( buf.data( ),(int_t)n,f.c_str( ) );
	mc::evaluation( ); mc::transition( );
	mc::outcome( mc::fmt( "i%s %d %d",what,(int)w,(int)rv ),true );
	if ( buf[n]!=77 ) mc::fail( "overrun","readFromFile(int) wrote behind the vector" );
	if ( w==MUST )
	{
		if ( rv!=SUCCESSFUL_RETURN ) { mc::fail( std::string( what )+"-refused-int",mc::fmt( "good file refused (%d): ",(int)rv )+content ); return; }
		for( size_t i=0; i<n; ++i ) if ( (double)buf[i]!=ref[i] ) { mc::fail( std::string( what )+"-value-int",mc::fmt( "entry %d read as %ld, file has %.17g: ",(int)i,(long)buf[i],ref[i] )+content ); return; }
	}
	else if ( w==MUSTNOT && rv==SUCCESSFUL_RETURN ) mc::fail( std::string( what )+"-accepted-int",mc::fmt( "%d values needed, file incomplete or not numeric but accepted: '",(int)n )+content+"'" );
}
struct Limit                     // file size limit: every byte behind it fails to be written
{
	rlim_t old;
	Limit( size_t b ) { struct rlimit r; getrlimit( RLIMIT_FSIZE,&r ); old=r.rlim_cur; r.rlim_cur=b; setrlimit( RLIMIT_FSIZE,&r ); }
	~Limit( ) { struct rlimit r; getrlimit( RLIMIT_FSIZE,&r ); r.rlim_cur=old; setrlimit( RLIMIT_FSIZE,&r ); }
};
// ---- independent MAT (level 4) reader
struct MatVar { int rows,cols; std::vector<double> v; };
static bool parseMat( const std::string& s, std::map<std::string,MatVar>& out, std::vector<std::string>* order = 0 )
{
	size_t p=0;
	while( p<s.size( ) )
	{
		if ( p+20 > s.size( ) ) return false;
		int32_t h[5]; memcpy( h,s.data( )+p,20 ); p+=20;
		if ( h[0]!=0 || h[1]<0 || h[2]<0 || h[3]!=0 || h[4]<1 || h[4]>64 || p+h[4]>s.size( ) ) return false;
		std::string nm( s.data( )+p,h[4] ); p+=h[4]; if ( nm.back( )!=0 ) return false; nm.pop_back( );
		MatVar m; m.rows=h[1]; m.cols=h[2]; size_t k=(size_t)h[1]*h[2]; if ( p+8*k>s.size( ) ) return false;
		m.v.resize( k ); for( size_t i=0; i<k; ++i ) memcpy( &m.v[(i%h[1])*h[2]+i/h[1]],s.data( )+p+8*i,8 ); p+=8*k;   // stored by columns
		if ( order ) order->push_back( nm );
		out[nm]=m;
	}
	return true;
}
static bool eqv( const MatVar& m, const double* v, int r, int c, double tol = 1e-6 ) { if ( m.rows!=r || m.cols!=c ) return false; for( int i=0; i<r*c; ++i ) if ( !( fabs( m.v[i]-v[i] )<=tol ) && m.v[i]!=v[i] ) return false; return true; }   // vectors: round-off of the homotopy

// ---- solver level
enum { FH, FG, FA, FLB, FUB, FLBA, FUBA, FR, NF };
static const char* FN[] = {"H","g","A","lb","ub","lbA","ubA","R"};
static std::string numText( double v ) { return mc::fmt( "%.16e",v ); }
struct Files { std::string f[NF]; };
static std::string matText( const double* v, int r, int c ) { std::string s; for( int i=0; i<r; ++i ) { for( int j=0; j<c; ++j ) s += numText( v[i*c+j] )+" "; s += "\n"; } return s; }
// upper triangular factor of the Hessian (identity if there is none)
static std::vector<double> factor( const QP& q )
{
	const int n=q.n; std::vector<double> R( n*n,0.0 ); bool ok=isPD( q.H,n );
	for( int i=0; i<n; ++i ) for( int j=i; j<n; ++j ) { if ( !ok ) { R[i*n+j]= i==j; continue; } double s=q.H[i*n+j]; for( int k=0; k<i; ++k ) s-=R[k*n+i]*R[k*n+j]; R[i*n+j]= i==j ? sqrt( s ) : s/R[i*n+i]; }
	return R;
}
static std::vector<std::string> contents( const QP& q )
{
	return { matText( q.H,q.n,q.n ),matText( q.g,1,q.n ),matText( q.A,q.m,q.n ),matText( q.lb,q.n,1 ),matText( q.ub,1,q.n ),matText( q.lbA,1,q.m ),matText( q.ubA,q.m,1 ),matText( factor( q ).data( ),q.n,q.n ) };
}
static Files writeAll( const QP& q, const char* tag ) { Files r; std::vector<std::string> c = contents( q ); for( int i=0; i<NF; ++i ) { r.f[i] = path( mc::fmt( "%s_%s",tag,FN[i] ).c_str( ) ); put( r.f[i],c[i] ); } return r; }
// nullMask as in Extra (1 lb, 2 ub, 4 lbA, 8 ubA), 16: no Hessian
#define FP( i,bit ) ( (mask&bit) ? (const char*)0 : f.f[i].c_str( ) )
// mask>>5: 1 Cholesky factor, 2 guessed working set, 3 guessed solution, 4 factor and guessed empty working set
struct Opt { double x[NMAX],y[NMAX+MMAX]; Bounds gB; Constraints gC; std::vector<double> R; const double *px,*py,*pR; const Bounds* pB; const Constraints* pC; bool file; };
static void fillOpt( Opt& o, const QP& q, int mask )
{
	int k=mask>>5; o.px=o.py=o.pR=0; o.pB=0; o.pC=0; o.R=factor( q ); for( int i=0; i<q.n+q.m; ++i ) { o.y[i]=0.25*( i-1 ); if ( i<q.n ) o.x[i]=0.5*i-0.5; }
	o.gB.init( q.n ); for( int i=0; i<q.n; ++i ) o.gB.setupBound( i,k==2 && q.lb[i]>-INF && i==0 ? ST_LOWER : ST_INACTIVE );
	if ( q.m ) { o.gC.init( q.m ); for( int i=0; i<q.m; ++i ) o.gC.setupConstraint( i,k==2 && q.ubA[i]<INF && i==0 && q.n>1 ? ST_UPPER : ST_INACTIVE ); }
	if ( k==1 || k==4 ) o.pR=o.R.data( ); if ( k==2 || k==4 ) { o.pB=&o.gB; if ( q.m ) o.pC=&o.gC; } if ( k==3 ) { o.px=o.x; o.py=o.y; }
}
static returnValue fInit( QProblemB& p, const Files& f, int mask, int_t& n, const QP& q ) { Opt o; fillOpt( o,q,mask ); return p.init( FP( FH,16 ),f.f[FG].c_str( ),FP( FLB,1 ),FP( FUB,2 ),n,0,o.px,o.py,o.pB,o.pR?f.f[FR].c_str( ):(const char*)0 ); }
static returnValue fInit( QProblem& p, const Files& f, int mask, int_t& n, const QP& q ) { Opt o; fillOpt( o,q,mask ); return p.init( FP( FH,16 ),f.f[FG].c_str( ),p.getNC( )?f.f[FA].c_str( ):(const char*)0,FP( FLB,1 ),FP( FUB,2 ),FP( FLBA,4 ),FP( FUBA,8 ),n,0,o.px,o.py,o.pB,o.pC,o.pR?f.f[FR].c_str( ):(const char*)0 ); }
static returnValue fHot( QProblemB& p, const Files& f, int mask, int_t& n ) { return p.hotstart( f.f[FG].c_str( ),FP( FLB,1 ),FP( FUB,2 ),n ); }
static returnValue fHot( QProblem& p, const Files& f, int mask, int_t& n ) { return p.hotstart( f.f[FG].c_str( ),FP( FLB,1 ),FP( FUB,2 ),FP( FLBA,4 ),FP( FUBA,8 ),n ); }
static returnValue fHot( SQProblem& p, const Files& f, int mask, int_t& n ) { return p.hotstart( f.f[FG].c_str( ),FP( FLB,1 ),FP( FUB,2 ),FP( FLBA,4 ),FP( FUBA,8 ),n ); }
static returnValue fMat( QProblemB& p, const Files& f, int mask, int_t& n ) { return fHot( p,f,mask,n ); }
static returnValue fMat( SQProblem& p, const Files& f, int mask, int_t& n ) { return p.hotstart( f.f[FH].c_str( ),f.f[FG].c_str( ),p.getNC( )?f.f[FA].c_str( ):(const char*)0,FP( FLB,1 ),FP( FUB,2 ),FP( FLBA,4 ),FP( FUBA,8 ),n ); }
static returnValue aInit( QProblemB& p, const QP& q, int mask, int_t& n ) { Opt o; fillOpt( o,q,mask ); return p.init( mask&16?(const double*)0:q.H,q.g,nz( q.lb,mask&1 ),nz( q.ub,mask&2 ),n,0,o.px,o.py,o.pB,o.pR ); }
static returnValue aInit( QProblem& p, const QP& q, int mask, int_t& n ) { Opt o; fillOpt( o,q,mask ); return p.init( mask&16?(const double*)0:q.H,q.g,q.m?q.A:(const double*)0,nz( q.lb,mask&1 ),nz( q.ub,mask&2 ),nz( q.lbA,mask&4 ),nz( q.ubA,mask&8 ),n,0,o.px,o.py,o.pB,o.pC,o.pR ); }
static returnValue aHot( QProblemB& p, const QP& q, int mask, int_t& n ) { Extra e; e.nullMask=mask&15; return dHot( p,q,n,e ); }
static returnValue aHot( QProblem& p, const QP& q, int mask, int_t& n ) { Extra e; e.nullMask=mask&15; return dHot( p,q,n,e ); }
static returnValue aMat( QProblemB& p, const QP& q, int mask, int_t& n ) { return aHot( p,q,mask,n ); }
static returnValue aMat( SQProblem& p, const QP& q, int mask, int_t& n ) { return p.hotstart( q.H,q.g,q.m?q.A:(const double*)0,nz( q.lb,mask&1 ),nz( q.ub,mask&2 ),nz( q.lbA,mask&4 ),nz( q.ubA,mask&8 ),n ); }
static QProblem* mk( QProblem*, int n, int m ) { return new QProblem( n,m ); }
static QProblemB* mk( QProblemB*, int n, int ) { return new QProblemB( n ); }
static SQProblem* mk( SQProblem*, int n, int m ) { return new SQProblem( n,m ); }

struct World { std::string name; int n,m; QP a,b; Files fa,fb; };   // a: first QP, b: same matrices other vectors (SQProblem: other matrices)
static std::vector<World> W;
static QP mkqp( int n, int m, std::vector<double> H, std::vector<double> g, std::vector<double> A, std::vector<double> lb, std::vector<double> ub, std::vector<double> lbA, std::vector<double> ubA )
{ QP q; q.n=n; q.m=m; for( int i=0;i<n*n;++i ) q.H[i]=H[i]; for( int i=0;i<n;++i ) { q.g[i]=g[i]; q.lb[i]=lb[i]; q.ub[i]=ub[i]; } for( int i=0;i<n*m;++i ) q.A[i]=A[i]; for( int i=0;i<m;++i ) { q.lbA[i]=lbA[i]; q.ubA[i]=ubA[i]; } return q; }

// fault kinds of one input file
enum { F_MISSING, F_EMPTY, F_DIR, F_SHORT1, F_HALF, F_GARBAGE_FIRST, F_GARBAGE_LAST, NFAULT };
static const char* FAULT[] = {"missing","empty","directory","last value missing","half","first token garbage","last token garbage"};
static void applyFault( std::string& f, int k )
{
	std::string c = get( f );
	std::vector<std::string> t; size_t p=0; while( p<c.size( ) ) { size_t e=c.find_first_of( " \n",p ); if ( e==std::string::npos ) e=c.size( ); if ( e>p ) t.push_back( c.substr( p,e-p ) ); p=e+1; }
	switch( k )
	{
		case F_MISSING: unlink( f.c_str( ) ); return;
		case F_EMPTY: put( f,"" ); return;
		case F_DIR: f = dir; return;
		case F_SHORT1: t.pop_back( ); break;
		case F_HALF: t.resize( t.size( )/2 ); break;
		case F_GARBAGE_FIRST: t[0]="abc"; break;
		case F_GARBAGE_LAST: t.back( )="?"; break;
	}
	std::string o; for( auto& x : t ) o += x+" "; put( f,o );
}
template<class P> static void solverFiles( const World& w, int var, int mask, const char* cls )
{
	// ops: I init a, J init b, H hotstart b, M hotstart with matrices b, N hotstart matrices a ; every sequence of length 3 on file and array object in step
	static const char OPS[]="IJHGMN"; const bool sq = !strcmp( cls,"SQProblem" ); const int no = sq?6:4;
	for( int s=0; s<no*no*no; ++s )
	{
		mc::Dec d( s ); char seq[4] = { OPS[d( no )],OPS[d( no )],OPS[d( no )],0 };
		mc::key( mc::fmt( "%s %s var%d mask%d seq %s",cls,w.name.c_str( ),var,mask,seq ) );
		P* pf = mk( (P*)0,w.n,w.m ); P* pa = mk( (P*)0,w.n,w.m ); Options o = variant( var ); pf->setOptions( o ); pa->setOptions( o );
		for( int k=0; k<3; ++k )
		{
			const QP& q = ( seq[k]=='I' || seq[k]=='G' || seq[k]=='N' ) ? w.a : w.b; int_t n1=50,n2=50; returnValue r1,r2;
			const Files& f = &q==&w.a ? w.fa : w.fb;
			static std::vector<QP> keep; keep.resize( 4 ); keep[k]=q;           // arrays stay alive
			if ( seq[k]=='I' || seq[k]=='J' ) { r1=fInit( *pf,f,mask,n1,q ); r2=aInit( *pa,keep[k],mask,n2 ); }
			else if ( seq[k]=='H' || seq[k]=='G' ) { r1=fHot( *pf,f,mask,n1 ); r2=aHot( *pa,keep[k],mask,n2 ); }
			else { r1=fMat( *pf,f,mask,n1 ); r2=aMat( *pa,keep[k],mask,n2 ); }
			mc::transition( );
			Obs a=observe( *pf,w.n,w.m,r1,n1 ), b=observe( *pa,w.n,w.m,r2,n2 ); std::string why;
			mc::state( mc::hashBytes( &a,sizeof(a) ) );
			// return codes of refused calls may differ in detail
			if ( !sameBits( a,b,w.n,w.m,&why ) ) { mc::fail( "file-differs",mc::fmt( "after %c: from files / from arrays: ",seq[k] )+why ); break; }
			mc::outcome( a.str( w.n,w.m,false ) );
		}
		mc::evaluation( );
		delete pf; delete pa;
	}
}
template<class P> static void solverFault( const World& w, int var, int fi, int fk, const char* cls )
{
	const bool sq = !strcmp( cls,"SQProblem" ); if ( !w.m && ( fi==FA || fi==FLBA || fi==FUBA ) ) return; const int im = fi==FR ? 32 : 0;
	for( int at=0; at<3; ++at )      // 0 fault at init, 1 at hotstart, 2 at hotstart with matrices
	{
		if ( at==1 && ( fi==FH || fi==FA ) ) continue;
		if ( at>0 && fi==FR ) continue;
		if ( at==2 && !sq ) continue;
		mc::key( mc::fmt( "%s %s var%d file %s %s at op %d",cls,w.name.c_str( ),var,FN[fi],FAULT[fk],at ) );
		P* p = mk( (P*)0,w.n,w.m ); P* r = mk( (P*)0,w.n,w.m ); p->setOptions( variant( var ) ); r->setOptions( variant( var ) );
		int_t n1=50,n2=50; Obs before;
		if ( at>0 ) { fInit( *p,w.fa,0,n1,w.a ); aInit( *r,w.a,0,n2 ); before = observe( *p,w.n,w.m,SUCCESSFUL_RETURN,0 ); }
		Files g = at?w.fb:w.fa; { std::string c = get( g.f[fi] ); g.f[fi] = path( "faulty" ); put( g.f[fi],c ); } applyFault( g.f[fi],fk );
		n1=50; returnValue rv = at==0 ? fInit( *p,g,im,n1,w.a ) : at==1 ? fHot( *p,g,0,n1 ) : fMat( *p,g,0,n1 );
		mc::transition( 3 ); mc::evaluation( );
		if ( rv==SUCCESSFUL_RETURN ) mc::fail( "fault-accepted","unreadable data reported as success" );
		Obs now = observe( *p,w.n,w.m,SUCCESSFUL_RETURN,0 ); std::string why;
		if ( at>0 && !sameBits( before,now,w.n,w.m,&why ) ) mc::fail( "fault-changed","refused hotstart changed the object: " + why );
		if ( at==0 && now.solved ) mc::fail( "fault-solved","object solved although its data were unreadable" );
		// object keeps working exactly as if the call had not been made
		for( int k=0; k<2; ++k )
		{
			n1=n2=50; returnValue r1,r2;
			if ( k==0 && at==0 ) { r1=aInit( *p,w.a,0,n1 ); r2=aInit( *r,w.a,0,n2 ); }
			else { r1=aHot( *p,k?w.a:w.b,0,n1 ); r2=aHot( *r,k?w.a:w.b,0,n2 ); }
			Obs a=observe( *p,w.n,w.m,r1,n1 ), b=observe( *r,w.n,w.m,r2,n2 );
			if ( !sameBits( a,b,w.n,w.m,&why ) ) { mc::fail( "fault-history","continuation differs after a refused call: " + why ); break; }
			mc::outcome( a.str( w.n,w.m,false ) );
		}
		delete p; delete r;
	}
}
static void matFile( const World& w, int var, int kind, int step )     // kind 0 dense, 1 sparse, 2 no Hessian (identity), 3 no Hessian (zero)
{
	mc::key( mc::fmt( "mat %s var%d kind%d step%d",w.name.c_str( ),var,kind,step ) );
	QP q = w.a; QProblem p( w.n,w.m,kind==2?HST_IDENTITY:kind==3?HST_ZERO:HST_UNKNOWN ); p.setOptions( variant( var ) ); int_t nW=50;
	double Hf[16]; memcpy( Hf,q.H,sizeof(Hf) );
	SymSparseMat* sH=0; SparseMatrix* sA=0;
	if ( kind>=2 ) { memset( Hf,0,sizeof(Hf) ); if ( kind==2 ) for( int i=0; i<w.n; ++i ) Hf[i*w.n+i]=1; }
	if ( kind==1 ) { sH = new SymSparseMat( w.n,w.n,w.n,q.H ); sH->createDiagInfo( ); sA = new SparseMatrix( w.m,w.n,w.n,q.A ); p.init( sH,q.g,sA,q.lb,q.ub,q.lbA,q.ubA,nW ); }
	else p.init( kind>=2?(const double*)0:q.H,q.g,w.m?q.A:(const double*)0,q.lb,q.ub,q.lbA,q.ubA,nW );
	if ( step==1 ) { QP b=w.b; nW=50; p.hotstart( b.g,b.lb,b.ub,b.lbA,b.ubA,nW ); memcpy( q.g,b.g,sizeof(b.g) ); memcpy( q.lb,b.lb,sizeof(b.lb) ); memcpy( q.ub,b.ub,sizeof(b.ub) ); memcpy( q.lbA,b.lbA,sizeof(b.lbA) ); memcpy( q.ubA,b.ubA,sizeof(b.ubA) ); }
	const std::string f = path( "m.mat" );
	for( int ws=0; ws<2; ++ws )
	{
		returnValue rv = ws ? p.writeQpWorkspaceIntoMatFile( f.c_str( ) ) : p.writeQpDataIntoMatFile( f.c_str( ) );
		mc::transition( ); mc::evaluation( );
		std::string s = get( f ); std::map<std::string,MatVar> v;
		if ( rv!=SUCCESSFUL_RETURN ) { mc::fail( "mat-refused",mc::fmt( "writing failed with %d",(int)rv ) ); continue; }
		if ( !parseMat( s,v ) ) { mc::fail( "mat-invalid",mc::fmt( "%s file (%d bytes) is not a valid level 4 MAT-file",ws?"workspace":"data",(int)s.size( ) ) ); continue; }
		if ( p.isSolved( ) && !ws )
		{
			bool ok = eqv( v["H"],Hf,w.n,w.n,0 ) && eqv( v["g"],q.g,w.n,1 ) && eqv( v["lb"],q.lb,w.n,1 ) && eqv( v["ub"],q.ub,w.n,1 );
			if ( w.m ) ok = ok && eqv( v["A"],q.A,w.m,w.n,0 ) && eqv( v["lbA"],q.lbA,w.m,1 ) && eqv( v["ubA"],q.ubA,w.m,1 );
			if ( !ok && !( p.usingRegularisation( ) ) ) { std::string all; for( auto& e : v ) all += e.first + "=" + vec( e.second.v.data( ),(int)e.second.v.size( ) ) + " "; mc::fail( "mat-data","MAT-file does not contain the QP data " + show( q ) + ": " + all ); }
		}
		if ( p.isSolved( ) && ws )
		{
			// index sets partition variables / constraints and agree with the working set; Q orthogonal
			double wsv[NMAX+MMAX]; p.getWorkingSet( wsv ); bool ok=true;
			MatVar FR=v["FR_idx"],FX=v["FX_idx"],AC=v["AC_idx"],IA=v["IAC_idx"];
			if ( (int)FR.v.size( )!=p.getNFR( ) || (int)FX.v.size( )!=p.getNFX( ) || (int)AC.v.size( )!=p.getNAC( ) || (int)IA.v.size( )!=p.getNIAC( ) ) ok=false;
			for( double d : FR.v ) if ( wsv[(int)d]!=0 ) ok=false;
			for( double d : FX.v ) if ( wsv[(int)d]==0 ) ok=false;
			for( double d : AC.v ) if ( wsv[w.n+(int)d]==0 ) ok=false;
			for( double d : IA.v ) if ( wsv[w.n+(int)d]!=0 ) ok=false;
			if ( !ok ) mc::fail( "mat-workspace","index sets in the MAT-file do not agree with the working set" );
			double x[NMAX]; p.getPrimalSolution( x );
			if ( w.m ) for( int i=0; i<w.m; ++i ) { double t=0; for( int j=0; j<w.n; ++j ) t+=q.A[i*w.n+j]*x[j]; if ( v["Ax"].v.size( )!=(size_t)w.m || fabs( v["Ax"].v[i]-t )>1e-6 ) { mc::fail( "mat-Ax","constraint products in the MAT-file are wrong" ); break; } }
		}
		mc::outcome( mc::fmt( "mat %d %d",(int)v.size( ),(int)s.size( ) ) );
		// write faults at every byte
		for( size_t L=0; L<=s.size( ); L += ( mc::thorough || L<8 || L+16>s.size( ) ) ? 1 : 13 )
		{
			unlink( f.c_str( ) ); returnValue r2; { Limit lim( L ); r2 = ws ? p.writeQpWorkspaceIntoMatFile( f.c_str( ) ) : p.writeQpDataIntoMatFile( f.c_str( ) ); }
			mc::transition( ); mc::evaluation( );
			std::string t = get( f );
			if ( r2==SUCCESSFUL_RETURN && t!=s ) { mc::fail( "mat-short",mc::fmt( "only %d of %d bytes could be written, success reported",(int)t.size( ),(int)s.size( ) ) ); break; }
			if ( r2!=SUCCESSFUL_RETURN && L>=s.size( ) ) { mc::fail( "mat-refused","complete write reported as failure" ); break; }
		}
	}
	unlink( f.c_str( ) );
	delete sH; delete sA;
}

static void setup( )
{
	signal( SIGXFSZ,SIG_IGN );
	const int NS = sizeof(SPEC)/sizeof(SPEC[0]), NI = sizeof(ISPEC)/sizeof(ISPEC[0]);
	const int shapes[][2] = {{1,1},{1,2},{2,1},{1,3},{2,2},{3,1}};
	// 1. round trips: all vectors of up to 2 special values, plus rotated special vectors for the other shapes, write/append
	mc::addSection( "roundtrip_real",(mc::u64)NS*NS*6*2,[=]( mc::u64 i ) {
		mc::Dec d( i ); int a=d( NS ),b=d( NS ); int sh=d( 6 ); bool app=d( 2 ); int r=shapes[sh][0],c=shapes[sh][1];
		double v[9]; for( int k=0; k<r*c; ++k ) v[k] = k%2 ? SPEC[b] : SPEC[( a+k/2 )%NS];
		mc::key( mc::fmt( "roundtrip %dx%d append%d ",r,c,app )+vec( v,r*c ) );
		const std::string f=path( "rt" ); unlink( f.c_str( ) );
		returnValue w = writeIntoFile( v,r,c,f.c_str( ),app?BT_TRUE:BT_FALSE );
		if ( app ) w = writeIntoFile( v,r,c,f.c_str( ),BT_TRUE ); else w = writeIntoFile( v,r,c,f.c_str( ),BT_FALSE );
		std::vector<double> o( 2*r*c,0.5 ); returnValue g = readFromFile( o.data( ),app?2*r:r,c,f.c_str( ) );
		mc::evaluation( ); mc::transition( 3 );
		if ( w!=SUCCESSFUL_RETURN || g!=SUCCESSFUL_RETURN ) { mc::fail( "roundtrip",mc::fmt( "write %d read %d",(int)w,(int)g ) ); return; }
		for( int k=0; k<r*c*(app?2:1); ++k ) if ( !same( o[k],v[k%(r*c)] ) ) { mc::fail( "roundtrip",mc::fmt( "entry %d: wrote %.17g read %.17g",k,v[k%(r*c)],o[k] ) ); return; }
		if ( !app ) { double e; if ( o.size( )>(size_t)r*c && readFromFile( o.data( ),2*r,c,f.c_str( ) )==SUCCESSFUL_RETURN ) mc::fail( "rewrite","old contents kept without append" ); (void)e; }
		std::vector<double> t( r*c ); if ( readFromFile( t.data( ),r*c,f.c_str( ) )!=SUCCESSFUL_RETURN || memcmp( t.data( ),v,8*r*c ) ) mc::fail( "roundtrip","vector reader differs" );
		mc::outcome( vec( v,r*c ) );
		unlink( f.c_str( ) );
	} );
	mc::addSection( "roundtrip_int",(mc::u64)NI*NI*NI*2,[=]( mc::u64 i ) {
		mc::Dec d( i ); int_t v[3] = {ISPEC[d( NI )],ISPEC[d( NI )],ISPEC[d( NI )]}; bool app=d( 2 );
		mc::key( mc::fmt( "roundtrip int %ld %ld %ld append%d",(long)v[0],(long)v[1],(long)v[2],app ) );
		const std::string f=path( "ri" ); unlink( f.c_str( ) );
		returnValue w = writeIntoFile( v,3,f.c_str( ),BT_FALSE ); if ( app ) w = writeIntoFile( v,2,f.c_str( ),BT_TRUE );
		int_t o[6]={7,7,7,7,7,7}; returnValue g = readFromFile( o,app?5:3,f.c_str( ) );
		mc::evaluation( ); mc::transition( 3 );
		if ( w!=SUCCESSFUL_RETURN || g!=SUCCESSFUL_RETURN ) { mc::fail( "roundtrip-int",mc::fmt( "write %d read %d",(int)w,(int)g ) ); return; }
		for( int k=0; k<(app?5:3); ++k ) if ( o[k]!=v[k%3] ) { mc::fail( "roundtrip-int",mc::fmt( "entry %d: wrote %ld read %ld",k,(long)v[k%3],(long)o[k] ) ); return; }
		mc::outcome( mc::fmt( "int %ld %ld %ld",(long)v[0],(long)v[1],(long)v[2] ) );
		unlink( f.c_str( ) );
	} );
	// 2. every truncation and every byte replacement of hand-formatted files
	static std::vector<std::string> txt = { "1 2 3 4\n","1.5\n-2.25e3\n.5 +7\n","  -1e+10\t2.5E-3\n\n3\n4 ","1e20 -1e20 inf -inf\n","0 0 0 0","-0.0 5e-324 1.7976931348623157e308 1.0000000000000002e+00 \n" };
	for( auto s : std::vector<std::string>{ "1 2 3 4\n","-5\n+6\n7\n-8\n","  9223372036854775807 0 1 2" } ) txt.push_back( s );
	static const char REP[] = " \n\tx-.e5?";
	static const int SH[][2] = {{2,2},{1,4},{4,1},{1,3},{3,1},{2,1}};
	static std::vector<std::pair<int,int> > idx; for( size_t t=0; t<txt.size( ); ++t ) for( size_t p=0; p<=txt[t].size( ); ++p ) idx.push_back( std::make_pair( (int)t,(int)p ) );
	mc::addSection( "truncate",idx.size( )*6,[=]( mc::u64 i ) {
		int t=idx[i/6].first,p=idx[i/6].second; std::string c = txt[t].substr( 0,p ); int s=i%6;
		mc::key( mc::fmt( "truncate file %d at %d shape %dx%d",t,p,SH[s][0],SH[s][1] ) );
		readCheck( c,SH[s][0],SH[s][1],"truncate" ); if ( t==0 || t>=6 ) readCheckI( c,SH[s][0]*SH[s][1],"truncate" );
	} );
	mc::addSection( "corrupt",idx.size( )*9*6,[=]( mc::u64 i ) {
		mc::Dec d( i ); int s=d( 6 ),r=d( 9 ); int t=idx[d( idx.size( ) )].first; mc::Dec e( i ); e( 6 ); e( 9 ); int p=idx[e( idx.size( ) )].second; if ( p>=(int)txt[t].size( ) ) return;
		std::string c = txt[t]; c[p]=REP[r];
		mc::key( mc::fmt( "corrupt file %d at %d by '%c' shape %dx%d",t,p,REP[r],SH[s][0],SH[s][1] ) );
		readCheck( c,SH[s][0],SH[s][1],"corrupt" ); if ( t==0 || t>=6 ) readCheckI( c,SH[s][0]*SH[s][1],"corrupt" );
	} );
	// 3. write faults at every byte
	mc::addSection( "writefault",6*2*2,[=]( mc::u64 i ) {
		mc::Dec d( i ); int sh=d( 6 ); bool app=d( 2 ),ints=d( 2 ); int r=shapes[sh][0],c=shapes[sh][1];
		double v[9]; int_t iv[9]; for( int k=0; k<9; ++k ) { v[k]=SPEC[k+2]; iv[k]=ISPEC[k]; }
		const std::string f=path( "wf" ); unlink( f.c_str( ) );
		for( int k=0; k<1+app; ++k ) if ( ints ) writeIntoFile( iv,r*c,f.c_str( ),k?BT_TRUE:BT_FALSE ); else writeIntoFile( v,r,c,f.c_str( ),k?BT_TRUE:BT_FALSE );
		const std::string full = get( f ); const size_t pre = app ? full.size( )/2 : 0;
		for( size_t L=pre; L<=full.size( ); ++L )
		{
			mc::key( mc::fmt( "writefault %dx%d append%d ints%d limit %d of %d",r,c,app,ints,(int)L,(int)full.size( ) ) );
			put( f,full.substr( 0,pre ) ); returnValue rv; { Limit lim( L ); rv = ints ? writeIntoFile( iv,r*c,f.c_str( ),app?BT_TRUE:BT_FALSE ) : writeIntoFile( v,r,c,f.c_str( ),app?BT_TRUE:BT_FALSE ); }
			mc::evaluation( ); mc::transition( );
			mc::outcome( mc::fmt( "wf %d %d %d",(int)i,(int)L,(int)rv ) );
			std::string t = get( f );
			if ( rv==SUCCESSFUL_RETURN && t!=full ) mc::fail( "write-short",mc::fmt( "only %d of %d bytes could be written, success reported",(int)t.size( ),(int)full.size( ) ) );
			if ( rv!=SUCCESSFUL_RETURN && L==full.size( ) ) mc::fail( "write-refused","complete write reported as failure" );
		}
		for( std::string bad : { dir,dir+"/nosuch/file",std::string( "" ) } )
		{
			returnValue rv = ints ? writeIntoFile( iv,r*c,bad.c_str( ),app?BT_TRUE:BT_FALSE ) : writeIntoFile( v,r,c,bad.c_str( ),app?BT_TRUE:BT_FALSE );
			mc::key( "bad path "+bad ); mc::evaluation( );
			if ( rv==SUCCESSFUL_RETURN ) mc::fail( "write-badpath","success reported for an impossible path" );
		}
		{	// large data: faults inside a full stdio buffer
			std::vector<double> big( 600 ); for( size_t k=0; k<big.size( ); ++k ) big[k]=k/7.0;
			for( size_t L : { (size_t)0,(size_t)4095,(size_t)4096,(size_t)4097,(size_t)9000 } )
			{
				mc::key( mc::fmt( "writefault big limit %d",(int)L ) ); unlink( f.c_str( ) ); returnValue rv; { Limit lim( L ); rv = writeIntoFile( big.data( ),30,20,f.c_str( ),BT_FALSE ); }
				mc::evaluation( ); if ( rv==SUCCESSFUL_RETURN ) mc::fail( "write-short",mc::fmt( "limit %d, success reported",(int)L ) );
			}
		}
		unlink( f.c_str( ) );
	} );
	mc::addSection( "badpath",2*4,[=]( mc::u64 i ) {
		mc::Dec d( i ); bool ints=d( 2 ); int k=d( 4 ); double v[2]={5,5}; int_t iv[2]={5,5};
		std::string f = k==0 ? dir : k==1 ? dir+"/nosuch" : k==2 ? dir+"/nosuch/file" : std::string( "" ); mc::key( "read bad path "+mc::fmt( "%d",k ) );
		returnValue rv = ints ? readFromFile( iv,2,f.c_str( ) ) : readFromFile( v,2,1,f.c_str( ) ); mc::evaluation( ); mc::transition( );
		mc::outcome( mc::fmt( "badpath %d %d",(int)i,(int)rv ) );
		if ( rv==SUCCESSFUL_RETURN ) mc::fail( "read-badpath","reading an impossible path reported as success" );
	} );
	// 4. solver level
	W.push_back( { "n1",1,0,mkqp( 1,0,{2},{1},{},{-1},{1},{},{} ),mkqp( 1,0,{2},{-3},{},{0},{1},{},{} ) } );
	W.push_back( { "n2m1",2,1,mkqp( 2,1,{2,1,1,2},{1,-1},{1,1},{-1,-1},{1,2},{0},{1} ),mkqp( 2,1,{2,1,1,2},{-2,1},{1,1},{0,-1},{1,1},{0.5},{1.5} ) } );
	W.push_back( { "n2m2x",2,2,mkqp( 2,2,{2,0,0,1},{1,-1},{1,2,1,-1},{-1,-1},{1,1},{-1,-1},{1,1} ),mkqp( 2,2,{1,0.5,0.5,2},{-1.0/3,1},{1,0,2,1},{-1,0},{1,1},{-1,0},{1,0} ) } );
	W.push_back( { "infeas",2,1,mkqp( 2,1,{2,0,0,2},{1,1},{1,1},{-1,-1},{1,1},{-1},{1} ),mkqp( 2,1,{2,0,0,2},{1,1},{1,1},{-1,-1},{1,1},{3},{4} ) } );
	for( size_t w=0; w<W.size( ); ++w ) { W[w].fa = writeAll( W[w].a,mc::fmt( "w%da",(int)w ).c_str( ) ); W[w].fb = writeAll( W[w].b,mc::fmt( "w%db",(int)w ).c_str( ) ); }
	static std::vector<int> masks; masks.clear( ); for( int k=0; k<32; ++k ) masks.push_back( k ); for( int k=1; k<=4; ++k ) for( int b : {0,5,10} ) masks.push_back( 32*k+b );
	const int nv = mc::thorough ? 14 : 4;
	mc::addSection( "solver",(mc::u64)3*W.size( )*nv*masks.size( ),[=]( mc::u64 i ) {
		mc::Dec d( i ); int c=d( 3 ),w=d( W.size( ) ),m=masks[d( masks.size( ) )],v=d( nv );
		if ( c==0 ) solverFiles<QProblemB>( W[w],v,m,"QProblemB" ); else if ( c==1 ) solverFiles<QProblem>( W[w],v,m,"QProblem" ); else solverFiles<SQProblem>( W[w],v,m,"SQProblem" );
	},1 );
	mc::addSection( "fault",(mc::u64)3*W.size( )*nv*NF*NFAULT,[=]( mc::u64 i ) {
		mc::Dec d( i ); int c=d( 3 ),w=d( W.size( ) ),f=d( NF ),k=d( NFAULT ),v=d( nv );
		if ( c==0 ) { if ( f==FA || f==FLBA || f==FUBA ) return; solverFault<QProblemB>( W[w],v,f,k,"QProblemB" ); } else if ( c==1 ) solverFault<QProblem>( W[w],v,f,k,"QProblem" ); else solverFault<SQProblem>( W[w],v,f,k,"SQProblem" );
	},4 );
	mc::addSection( "matfile",(mc::u64)W.size( )*nv*4*2,[=]( mc::u64 i ) { mc::Dec d( i ); int w=d( W.size( ) ),v=d( nv ),k=d( 4 ),s=d( 2 ); matFile( W[w],v,k,s ); },1 );
}
int main( int argc, char** argv )
{
	char t[] = "/tmp/qpfilesXXXXXX"; if ( !mkdtemp( t ) ) { perror( "mkdtemp" ); return 2; } dir = t;
	int r = mc::main( argc,argv,"C22",RULE,setup );
	std::string cmd = "rm -rf '" + dir + "'"; if ( dir.compare( 0,13,"/tmp/qpfilesX" )<0 || dir.size( )>12 ) { if ( system( cmd.c_str( ) ) ) {} }
	return r;
}
