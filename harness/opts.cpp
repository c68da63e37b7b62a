// C23: option structs: presets, copies, consistency adjustment, printing, hand-over to solver objects.
#include "drv.hpp"
static const char* RULE = "Every option member x every value of its alphabet (invalid, boundary, valid) alone and in all pairs, starting from each preset: the consistency check must leave valid values alone, replace invalid ones by valid ones, say whether it did, and be idempotent; solver objects must adopt exactly the adjusted options without touching the user's. "
	"Presets are set from every such state (no memory of previous values); copies and assignments carry every member; the printed form shows every member's value.";
enum Kind { B, I, R, S, L };
struct Mem { const char* nm; Kind k; std::function<double(const Options&)> get; std::function<void(Options&,double)> set; std::vector<double> v; int dom; };   // dom 0 any, 1 >0, 2 >=0, 3 >=1.1, 4 > boundRelaxation
static std::vector<Mem> M;
static void members( )
{
	#define RM(a,d,...) M.push_back( Mem{ #a,R,[]( const Options& o ) { return (double)o.a; },[]( Options& o, double x ) { o.a=x; },{__VA_ARGS__},d } );
	#define IM(a,d,...) M.push_back( Mem{ #a,I,[]( const Options& o ) { return (double)o.a; },[]( Options& o, double x ) { o.a=(int_t)x; },{__VA_ARGS__},d } );
	#define BM(a) M.push_back( Mem{ #a,B,[]( const Options& o ) { return o.a==BT_TRUE?1.0:0.0; },[]( Options& o, double x ) { o.a=x!=0?BT_TRUE:BT_FALSE; },{0,1},0 } );
	BM(enableRamping) BM(enableFarBounds) BM(enableFlippingBounds) BM(enableRegularisation) BM(enableFullLITests) BM(enableNZCTests) BM(enableEqualities) BM(enableDropInfeasibles) BM(enableInertiaCorrection)
	IM(enableDriftCorrection,2,-3,-1,0,1,7) IM(enableCholeskyRefactorisation,2,-2,-1,0,1,5)
	RM(terminationTolerance,1,-1,-1e-300,0,1e-300,1e-5) RM(boundTolerance,1,-1,0,1e-12,0.1) RM(boundRelaxation,1,-5,0,1e-3,3,1e5)
	RM(epsNum,0,-1e-10,0,1) RM(epsDen,0,1e-10,2) RM(maxPrimalJump,1,-1,0,1e3) RM(maxDualJump,1,-1,0,1e3) RM(initialRamping,2,-0.1,0,0.25) RM(finalRamping,2,-2,0,1.5)
	RM(initialFarBounds,4,-1,0,1e-3,3,1e4,1e5,1e9) RM(growFarBounds,3,-10,0,1,1.0999,1.1,1e6) RM(epsFlipping,1,-1,0,1e-9) IM(numRegularisationSteps,2,-1,0,3) RM(epsRegularisation,1,-1,0,1e-6) IM(numRefinementSteps,2,-4,0,2)
	RM(epsIterRef,1,-1,0,1e-6) RM(epsLITests,2,-1,0,1e-6) RM(epsNZCTests,2,-1,0,1e-6) RM(rcondSMin,0,0,1e-8) IM(dropBoundPriority,0,0,1,4) IM(dropEqConPriority,0,0,1,4) IM(dropIneqConPriority,0,0,1,4)
	M.push_back( Mem{ "initialStatusBounds",S,[]( const Options& o ) { return (double)o.initialStatusBounds; },[]( Options& o, double x ) { o.initialStatusBounds=(SubjectToStatus)(int)x; },{-1,0,1},0 } );
	M.push_back( Mem{ "printLevel",L,[]( const Options& o ) { return (double)o.printLevel; },[]( Options& o, double x ) { o.printLevel=(PrintLevel)(int)x; },{-2,-1,0,1,2,3},0 } );
}
static std::vector<double> vals( const Options& o ) { std::vector<double> r; for( auto& m : M ) r.push_back( m.get( o ) ); return r; }
static std::string dif( const std::vector<double>& a, const std::vector<double>& b ) { for( size_t i=0; i<a.size( ); ++i ) if ( a[i]!=b[i] ) return std::string( M[i].nm )+mc::fmt( ": %.17g / %.17g",a[i],b[i] ); return ""; }
static bool valid( int k, double x, const std::vector<double>& all, int iRelax ) { switch( M[k].dom ) { case 1: return x>0; case 2: return x>=0; case 3: return x>=1.1; case 4: return x>all[iRelax]; } return true; }
static Options base( int k ) { Options o; if ( k==0 ) o.setToDefault( ); else if ( k==1 ) o.setToReliable( ); else if ( k==2 ) o.setToMPC( ); else o.setToFast( ); return o; }
static std::string printed( const Options& o, bool viaObject )
{
	char* p=0; size_t n=0; FILE* f=open_memstream( &p,&n ); QProblemB q( 1 ); Options s=o; if ( viaObject ) q.setOptions( s ); getGlobalMessageHandler( )->setOutputFile( f );
	if ( viaObject ) q.printOptions( ); else o.print( );
	getGlobalMessageHandler( )->setOutputFile( stdout ); fclose( f ); std::string r( p,n ); free( p ); return r;
}
static std::string checkPrint( const std::string& t, const Options& o )
{
	for( auto& m : M )
	{
		if ( !strncmp( m.nm,"drop",4 ) || !strcmp( m.nm,"enableDropInfeasibles" ) ) continue;      // not part of the printed form
		size_t at=0; bool ok=false; std::string want, got;
		double v=m.get( o ); static const char* LS[] = {"PL_DEBUG_ITER","PL_TABULAR","PL_NONE","PL_LOW","PL_MEDIUM","PL_HIGH"}; static const char* SS[] = {"ST_LOWER","ST_INACTIVE","ST_UPPER"};
		want = m.k==B ? ( v!=0?"BT_TRUE":"BT_FALSE" ) : m.k==S ? SS[(int)v+1] : m.k==L ? LS[(int)v+2] : m.k==I ? mc::fmt( "%d",(int)v ) : mc::fmt( "%e",v );
		int seen=0; while( ( at=t.find( m.nm,at ) )!=std::string::npos )
		{
			size_t e=t.find( '\n',at ), eq=t.find( '=',at ); size_t nl=at+strlen( m.nm ); at=nl; if ( ( nl<t.size( ) && isalnum( t[nl] ) ) || eq==std::string::npos || eq>e ) continue;
			++seen; size_t b=t.find_first_not_of( ' ',eq+1 ); got=t.substr( b,e-b ); while( !got.empty( ) && got.back( )==' ' ) got.pop_back( );
			ok = got==want || ( m.k==R && fabs( strtod( got.c_str( ),0 )-v )<=1e-5*fabs( v ) );
		}
		if ( seen!=1 || !ok ) return std::string( m.nm )+" printed "+mc::fmt( "%d times, as '",seen )+got+"' instead of '"+want+"'";
	}
	return "";
}
struct Pick { int a,b; size_t x,y; };
static std::vector<std::pair<int,int> > ALL;     // (member, value index)
static void consistency( int preset, std::pair<int,int> p, std::pair<int,int> q )
{
	Options o=base( preset ); std::string ks=mc::fmt( "preset %d",preset ); int iRelax=0; for( size_t i=0; i<M.size( ); ++i ) if ( !strcmp( M[i].nm,"boundRelaxation" ) ) iRelax=(int)i;
	for( auto z : {p,q} ) { M[z.first].set( o,M[z.first].v[z.second] ); ks+=std::string( " " )+M[z.first].nm+mc::fmt( "=%g",M[z.first].v[z.second] ); }
	mc::key( ks ); mc::evaluation( ); mc::transition( );
	std::vector<double> before=vals( o ); Options c( o ),a; a.setToFast( ); a=o; a=*&a;
	std::string w=dif( vals( c ),before ); if ( w=="" ) w=dif( vals( a ),before ); if ( w!="" ) return mc::fail( "copy",w );
	getGlobalMessageHandler( )->setWarningVisibilityStatus( VS_HIDDEN );
	returnValue rv=c.ensureConsistency( ); std::vector<double> after=vals( c ); bool any=false;
	for( size_t i=0; i<M.size( ); ++i )
	{
		bool ok = valid( i,before[i],M[i].dom==4?after:before,iRelax );    // far bounds are compared with the adjusted relaxation
		if ( ok && after[i]!=before[i] ) return mc::fail( "adjusted a valid value",std::string( M[i].nm )+mc::fmt( " %g -> %g",before[i],after[i] ) );
		if ( !ok ) { any=true; if ( !valid( i,after[i],after,iRelax ) ) return mc::fail( "invalid after adjustment",std::string( M[i].nm )+mc::fmt( " %g -> %g",before[i],after[i] ) ); }
	}
	if ( ( rv!=SUCCESSFUL_RETURN )!=any || ( any && rv!=RET_OPTIONS_ADJUSTED ) ) return mc::fail( "return value",mc::fmt( "returned %d, values %s valid",(int)rv,any?"were not":"were" ) );
	if ( c.ensureConsistency( )!=SUCCESSFUL_RETURN || dif( vals( c ),after )!="" ) return mc::fail( "not idempotent",dif( vals( c ),after ) );
	// independent of the original
	w=dif( vals( o ),before ); if ( w!="" ) return mc::fail( "source changed",w );
	// presets forget previous values
	for( int k=0; k<4; ++k ) { Options s( o ); returnValue r = k==0?s.setToDefault( ):k==1?s.setToReliable( ):k==2?s.setToMPC( ):s.setToFast( ); Options f=base( k ); w=dif( vals( s ),vals( f ) ); if ( r!=SUCCESSFUL_RETURN || w!="" ) return mc::fail( "preset keeps old values",mc::fmt( "preset %d: ",k )+w ); }
	// solver objects adopt the adjusted options
	{
		QProblemB pb( 2 ); QProblem pq( 2,1 ); SQProblem ps( 2,1 ); QProblemB* P[3]={ &pb,&pq,&ps };
		for( int k=0; k<3; ++k )
		{
			Options u( o ); P[k]->setOptions( u ); w=dif( vals( u ),before ); if ( w!="" ) return mc::fail( "user options changed",w );
			Options g=P[k]->getOptions( ); w=dif( vals( g ),after ); if ( w!="" ) return mc::fail( "object options",w );
			M[p.first].set( u,M[p.first].v[0] ); w=dif( vals( P[k]->getOptions( ) ),after ); if ( w!="" ) return mc::fail( "object refers to the user's options",w );
		}
		Options u=pq.getOptions( ); QProblem cp( pq ); w=dif( vals( cp.getOptions( ) ),after ); if ( w!="" ) return mc::fail( "copied object options",w );
		pq.reset( ); w=dif( vals( pq.getOptions( ) ),after ); if ( w!="" ) return mc::fail( "reset changes options",w );
	}
	if ( p.first==q.first )
	{
		w=checkPrint( printed( o,false ),o ); if ( w!="" ) return mc::fail( "print",w );
		if ( after[M.size( )-1]!=0 ) { w=checkPrint( printed( o,true ),c ); if ( w!="" ) return mc::fail( "printOptions",w ); }
	}
	std::string s; for( double d : after ) s+=mc::fmt( "%g,",d ); mc::state( mc::hashStr( s ) ); mc::outcome( s,any ); mc::traceValidated( ); mc::sample( ks+mc::fmt( " -> rv %d",(int)rv ) );
}
// what the presets stand for, as documented in the manual: differences to the default
static void presets( mc::u64 )
{
	mc::key( "presets" ); mc::evaluation( ); std::vector<double> d=vals( base( 0 ) ); Options none; std::string w=dif( vals( none ),d ); if ( w!="" ) return mc::fail( "preset","constructor differs from default: "+w );
	for( int k=0; k<4; ++k ) { Options o=base( k ); if ( o.ensureConsistency( )!=SUCCESSFUL_RETURN || dif( vals( o ),vals( base( k ) ) )!="" ) mc::fail( "preset",mc::fmt( "preset %d is not consistent",k ) ); }
	auto is=[&]( int k, const char* nm, double v ) { for( size_t i=0; i<M.size( ); ++i ) if ( !strcmp( M[i].nm,nm ) && M[i].get( base( k ) )!=v ) mc::fail( "preset",mc::fmt( "preset %d: %s is %g",k,nm,M[i].get( base( k ) ) ) ); };
	for( int k=0; k<2; ++k ) { is( k,"enableRamping",1 ); is( k,"enableFarBounds",1 ); is( k,"enableFlippingBounds",1 ); is( k,"enableRegularisation",0 ); is( k,"enableNZCTests",1 ); is( k,"enableEqualities",0 ); is( k,"enableDriftCorrection",1 ); is( k,"initialStatusBounds",-1 ); is( k,"numRegularisationSteps",0 ); is( k,"enableFullLITests",k ); is( k,"enableCholeskyRefactorisation",k ); is( k,"numRefinementSteps",k+1 ); }
	for( int k=2; k<4; ++k ) { is( k,"enableRamping",0 ); is( k,"enableFarBounds",1 ); is( k,"enableFlippingBounds",0 ); is( k,"enableRegularisation",1 ); is( k,"enableNZCTests",0 ); is( k,"enableEqualities",1 ); is( k,"enableDriftCorrection",0 ); is( k,"initialStatusBounds",0 ); is( k,"numRegularisationSteps",1 ); is( k,"enableFullLITests",0 ); is( k,"enableCholeskyRefactorisation",0 ); is( k,"numRefinementSteps",0 ); }
	for( int k=0; k<4; ++k ) is( k,"enableDropInfeasibles",0 );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C23",RULE,[]
	{
		members( ); for( size_t i=0; i<M.size( ); ++i ) for( size_t j=0; j<M[i].v.size( ); ++j ) ALL.push_back( { (int)i,(int)j } );
		mc::addSection( "presets",1,presets );
		mc::u64 n=ALL.size( ); mc::addSection( "pairs",4*n*n,[n]( mc::u64 i ) { mc::Dec d( i ); int p=d( 4 ); auto a=ALL[d( n )]; auto b=ALL[d( n )]; consistency( p,a,b ); } );
		if ( mc::thorough ) mc::addSection( "triples",n*n*n,[n]( mc::u64 i )
		{
			mc::Dec d( i ); auto a=ALL[d( n )]; auto b=ALL[d( n )]; auto c=ALL[d( n )]; if ( !( a.first<b.first && b.first<c.first ) ) return; Options o; int iRelax=0; for( size_t k=0; k<M.size( ); ++k ) if ( !strcmp( M[k].nm,"boundRelaxation" ) ) iRelax=(int)k;
			for( auto z : {a,b,c} ) M[z.first].set( o,M[z.first].v[z.second] ); std::vector<double> be=vals( o ); returnValue rv=o.ensureConsistency( ); std::vector<double> af=vals( o ); bool any=false; mc::evaluation( );
			mc::key( mc::fmt( "%s=%g %s=%g %s=%g",M[a.first].nm,M[a.first].v[a.second],M[b.first].nm,M[b.first].v[b.second],M[c.first].nm,M[c.first].v[c.second] ) );
			for( size_t k=0; k<M.size( ); ++k ) { bool ok=valid( k,be[k],M[k].dom==4?af:be,iRelax ); if ( ok && af[k]!=be[k] ) mc::fail( "adjusted a valid value",M[k].nm ); if ( !ok ) { any=true; if ( !valid( k,af[k],af,iRelax ) ) mc::fail( "invalid after adjustment",M[k].nm ); } }
			if ( ( rv!=SUCCESSFUL_RETURN )!=any ) mc::fail( "return value",mc::fmt( "%d",(int)rv ) );
			if ( o.ensureConsistency( )!=SUCCESSFUL_RETURN ) mc::fail( "not idempotent","" );
		} );
	} );
}
