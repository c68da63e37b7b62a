// C32: message handling: every message is printed exactly when, and as, requested; return codes pass through unchanged.
#include "mc.hpp"
#include <qpOASES.hpp>
USING_NAMESPACE_QPOASES
static const char* RULE = "Explicit-state exploration of the global message handler: all sequences up to the depth over {throw error/warning/info (known, unknown, undefined codes, with and without additional text, locally "
	"hidden), set each visibility, set the error count, reset, assign and copy handlers, switch the output file on and off}; printed bytes, return values and queries are compared with a reference model after each step.";
static const int LAST = (int)RET_SIMPLE_STATUS_M3;
struct Model { bool e,w,i,file; int cnt; std::string out; };
static std::string text( int c ) { return MessageHandling::getErrorCodeMessage( (returnValue)c ); }
static std::string cut( const std::string& s ) { return s.substr( 0,MAX_STRING_LENGTH-1 ); }
static int mthrow( Model& m, int kind, int code, const char* add, bool vis );
static int mmsg( Model& m, int code, const char* add, bool vis, const char* K )
{
	if ( code<0 || code>LAST ) { mthrow( m,0,RET_EWI_UNDEFINED,0,true ); return code; }
	if ( !vis || code==RET_AVAILABLE_WITH_LINUX_ONLY ) return code;
	std::string o;
	if ( m.cnt<0 ) { o+="\n"; m.cnt=0; }
	if ( m.cnt>0 ) o += std::string( std::min( 40,2*( m.cnt-1 ) ),' ' )+"->";
	o += cut( std::string( K )+":  "+text( code )+( add?std::string( " " )+add:"" )+"\n" );
	if ( K[0]=='E' ) ++m.cnt; else { if ( m.cnt>0 ) o+="\n"; m.cnt=0; }
	if ( m.file ) m.out+=o;
	return code;
}
static int mthrow( Model& m, int kind, int code, const char* add, bool vis )
{
	if ( kind<2 ? code<=0 : code<0 ) return mthrow( m,0,kind==0?RET_ERROR_UNDEFINED:kind==1?RET_WARNING_UNDEFINED:RET_INFO_UNDEFINED,0,true );
	if ( kind==0 ? !m.e : kind==1 ? !m.w : !m.i ) return code;
	return mmsg( m,code,add,vis,kind==0?"ERROR":kind==1?"WARNING":"INFO" );
}
static int rthrow( int kind, int code, const char* add, bool vis )
{
	MessageHandling* h=getGlobalMessageHandler( ); VisibilityStatus v=vis?VS_VISIBLE:VS_HIDDEN;
	return (int)( kind==0 ? h->throwError( (returnValue)code,add,"function","file",7,v ) : kind==1 ? h->throwWarning( (returnValue)code,add,"function","file",7,v ) : h->throwInfo( (returnValue)code,add,"function","file",7,v ) );
}
static const char* KN[] = {"error","warning","info"};
static std::string LONG( 400,'x' );
struct Op { const char* nm; int what,a,b,c; const char* t; };      // what 0: throw kind a, code b, visible c, text t
static std::vector<Op> OPS;
static void ops( )
{
	for( int k=0; k<3; ++k )
	{
		OPS.push_back( Op{ KN[k],0,k,RET_MAX_NWSR_REACHED,1,0 } ); OPS.push_back( Op{ "text",0,k,RET_QP_INFEASIBLE,1,"some %s %d text" } ); OPS.push_back( Op{ "hidden",0,k,RET_HOTSTART_FAILED,0,0 } );
		OPS.push_back( Op{ "unknown",0,k,LAST+1,1,0 } ); OPS.push_back( Op{ "undefined",0,k,-1,1,0 } ); OPS.push_back( Op{ "zero",0,k,0,1,0 } ); OPS.push_back( Op{ "linuxonly",0,k,RET_AVAILABLE_WITH_LINUX_ONLY,1,0 } );
		OPS.push_back( Op{ "show",1,k,1,0,0 } ); OPS.push_back( Op{ "hide",1,k,0,0,0 } );
	}
	OPS.push_back( Op{ "longtext",0,0,RET_HOTSTART_FAILED,1,LONG.c_str( ) } );
	for( int c : {-2,-1,0,5,30} ) OPS.push_back( Op{ "count",2,c,0,0,0 } );
	OPS.push_back( Op{ "reset",3,0,0,0,0 } ); OPS.push_back( Op{ "assign",4,0,0,0,0 } ); OPS.push_back( Op{ "copy",5,0,0,0,0 } ); OPS.push_back( Op{ "noFile",6,0,0,0,0 } ); OPS.push_back( Op{ "file",6,1,0,0,0 } ); OPS.push_back( Op{ "selfAssign",7,0,0,0,0 } );
}
static void hist( const std::vector<int>& h )
{
	std::string ks; for( int o : h ) ks += mc::fmt( "%s%s/%d/%d ",OPS[o].what==0?KN[OPS[o].a]:"",OPS[o].nm,OPS[o].a,OPS[o].b ); mc::key( ks ); mc::evaluation( );
	char* p=0; size_t n=0; FILE* f=open_memstream( &p,&n ); MessageHandling* g=getGlobalMessageHandler( );
	g->setErrorVisibilityStatus( VS_VISIBLE ); g->setWarningVisibilityStatus( VS_VISIBLE ); g->setInfoVisibilityStatus( VS_VISIBLE ); g->setOutputFile( f ); g->setErrorCount( 0 );
	Model m={ true,true,true,true,0,"" }; std::string bad;
	for( size_t i=0; i<h.size( ) && bad.empty( ); ++i )
	{
		const Op& o=OPS[h[i]]; int rv=0,want=0; mc::transition( );
		switch( o.what )
		{
			case 0: rv=rthrow( o.a,o.b,o.t,o.c!=0 ); want=mthrow( m,o.a,o.b,o.t,o.c!=0 ); break;
			case 1: { VisibilityStatus v=o.b?VS_VISIBLE:VS_HIDDEN; if ( o.a==0 ) g->setErrorVisibilityStatus( v ); else if ( o.a==1 ) g->setWarningVisibilityStatus( v ); else g->setInfoVisibilityStatus( v ); ( o.a==0?m.e:o.a==1?m.w:m.i )=o.b!=0; break; }
			case 2: rv=(int)g->setErrorCount( o.a ); want = o.a>=-1 ? 0 : (int)RET_INVALID_ARGUMENTS; if ( o.a>=-1 ) m.cnt=o.a; break;
			case 3: rv=(int)g->reset( ); if ( g->getOutputFile( )!=stdFile ) bad="reset does not restore the output file"; m.e=true; m.w=m.i=false; m.cnt=0; if ( m.file ) g->setOutputFile( f ); else g->setOutputFile( 0 ); break;
			case 4: { MessageHandling x( VS_HIDDEN,VS_VISIBLE,VS_HIDDEN ); x.setErrorCount( 3 ); x.setOutputFile( m.file?f:0 ); *g=x; x.setOutputFile( 0 ); m.e=m.i=false; m.w=true; m.cnt=3; break; }
			case 5: { MessageHandling x( *g ); FILE* q=x.getOutputFile( ); if ( q!=( m.file?f:0 ) || x.getErrorCount( )!=m.cnt || ( x.getErrorVisibilityStatus( )==VS_VISIBLE )!=m.e || ( x.getWarningVisibilityStatus( )==VS_VISIBLE )!=m.w || ( x.getInfoVisibilityStatus( )==VS_VISIBLE )!=m.i ) bad="copy differs";
				x.setErrorCount( 11 ); x.setErrorVisibilityStatus( VS_HIDDEN ); x.setOutputFile( 0 ); break; }
			case 6: g->setOutputFile( o.a?f:0 ); m.file=o.a!=0; break;
			case 7: *g=*g; break;
		}
		fflush( f ); std::string out( p,n );
		if ( rv!=want ) bad=mc::fmt( "step %d returned %d, expected %d",(int)i+1,rv,want );
		else if ( out!=m.out ) bad=mc::fmt( "after step %d printed '",(int)i+1 )+out.substr( 0,400 )+"' expected '"+m.out.substr( 0,400 )+"'";
		else if ( g->getErrorCount( )!=m.cnt ) bad=mc::fmt( "after step %d error count is %d, expected %d",(int)i+1,(int)g->getErrorCount( ),m.cnt );
		else if ( ( g->getErrorVisibilityStatus( )==VS_VISIBLE )!=m.e || ( g->getWarningVisibilityStatus( )==VS_VISIBLE )!=m.w || ( g->getInfoVisibilityStatus( )==VS_VISIBLE )!=m.i ) bad=mc::fmt( "after step %d a visibility differs",(int)i+1 );
		else { mc::state( mc::hashStr( mc::fmt( "%d%d%d%d %d",m.e,m.w,m.i,m.file,m.cnt ) ) ); mc::traceValidated( ); }
	}
	g->setOutputFile( stdout ); fclose( f ); mc::outcome( std::string( p?p:"" ) ); free( p );
	if ( !bad.empty( ) ) mc::fail( "sequence",bad );
}
static const char* lower( std::string s ) { static std::string r; for( auto& c : s ) c=tolower( c ); r=s; return r.c_str( ); }
static void codes( mc::u64 i )
{
	mc::Dec d( i ); int code=(int)d( LAST+20 )-10, kind=d( 3 ); bool vis=d( 2 ); int t=d( 3 ); static const char* T[3] = {0,"","extra"};
	mc::key( mc::fmt( "%s code %d %s text %s",KN[kind],code,vis?"visible":"hidden",T[t]?T[t]:"(none)" ) ); mc::evaluation( ); mc::transition( );
	bool known = code>=0 && code<=LAST;
	if ( known != ( text( code )!="Unknown error code" ) || ( text( code ).empty( ) && code!=RET_STEPSIZE && code!=RET_STEPSIZE_NONPOSITIVE ) ) return mc::fail( "message text",known?"a valid return code has no message":"an invalid return code has a message" );
	char* p=0; size_t n=0; FILE* f=open_memstream( &p,&n ); MessageHandling* g=getGlobalMessageHandler( );
	g->setErrorVisibilityStatus( VS_VISIBLE ); g->setWarningVisibilityStatus( VS_VISIBLE ); g->setInfoVisibilityStatus( VS_VISIBLE ); g->setOutputFile( f ); g->setErrorCount( 0 );
	Model m={ true,true,true,true,0,"" }; int rv=rthrow( kind,code,T[t],vis ), want=mthrow( m,kind,code,T[t],vis ); g->setOutputFile( stdout ); fclose( f );
	std::string out( p,n ); free( p );
	if ( rv!=want ) mc::fail( "code",mc::fmt( "returned %d, expected %d",rv,want ) );
	if ( out!=m.out ) mc::fail( "code","printed '"+out+"' expected '"+m.out+"'" );
	mc::outcome( out ); mc::traceValidated( );
}
// the verdicts a user acts on say what they mean
static void meaning( mc::u64 i )
{
	struct W { int c; const char* k; }; static const W w[] = { {RET_INIT_FAILED_INFEASIBILITY,"infeas"},{RET_INIT_FAILED_UNBOUNDEDNESS,"unbound"},{RET_HOTSTART_STOPPED_INFEASIBILITY,"infeas"},{RET_HOTSTART_STOPPED_UNBOUNDEDNESS,"unbound"},
		{RET_QP_INFEASIBLE,"infeas"},{RET_QP_UNBOUNDED,"unbound"},{RET_MAX_NWSR_REACHED,"maximum number of working set"},{RET_QP_SOLVED,"solved"},{RET_SIMPLE_STATUS_P0,"problem solved"},{RET_SIMPLE_STATUS_P1,"within given number of iterations"},
		{RET_SIMPLE_STATUS_M1,"internal error"},{RET_SIMPLE_STATUS_M2,"infeasible"},{RET_SIMPLE_STATUS_M3,"unbounded"},{SUCCESSFUL_RETURN,"success"},{RET_UNABLE_TO_OPEN_FILE,"open"},{RET_UNABLE_TO_READ_FILE,"read"},{RET_UNABLE_TO_WRITE_FILE,"writ"},{RET_INVALID_ARGUMENTS,"invalid"},
		{RET_OPTIONS_ADJUSTED,"adjusted"},{RET_NOT_YET_IMPLEMENTED,"not yet implemented"},{RET_NO_SPARSE_SOLVER,"no sparse solver"},{RET_HESSIAN_INDEFINITE,"indefinite"},{RET_USING_REGULARISATION,"regularisation"} };
	const W& x=w[i%( sizeof(w)/sizeof(w[0]) )]; mc::key( mc::fmt( "text of code %d",x.c ) ); mc::evaluation( );
	std::string t=lower( text( x.c ) );
	if ( t.find( x.k )==std::string::npos ) mc::fail( "message text","'"+t+"' does not say '"+x.k+"'" );
	mc::outcome( t );
}
static void statusPrint( mc::u64 i )
{
	mc::Dec d( i ); int code=(int)d( LAST+6 )-1; bool pr=d( 2 ), hid=d( 2 ), cnt=d( 2 ); mc::key( mc::fmt( "getSimpleStatus(%d,%s) infos %s",code,pr?"print":"silent",hid?"hidden":"visible" ) ); mc::evaluation( ); mc::transition( );
	char* p=0; size_t n=0; FILE* f=open_memstream( &p,&n ); MessageHandling* g=getGlobalMessageHandler( ); g->setErrorVisibilityStatus( VS_VISIBLE ); g->setInfoVisibilityStatus( hid?VS_HIDDEN:VS_VISIBLE ); g->setOutputFile( f ); g->setErrorCount( cnt?4:0 );
	int s=(int)getSimpleStatus( (returnValue)code,pr?BT_TRUE:BT_FALSE ); bool still = ( g->getInfoVisibilityStatus( )==VS_HIDDEN )==hid; g->setOutputFile( stdout ); fclose( f ); std::string out( p,n ); free( p );
	int want = code==SUCCESSFUL_RETURN?0 : code==RET_MAX_NWSR_REACHED?1 : code==RET_INIT_FAILED_INFEASIBILITY||code==RET_HOTSTART_STOPPED_INFEASIBILITY?-2 : code==RET_INIT_FAILED_UNBOUNDEDNESS||code==RET_HOTSTART_STOPPED_UNBOUNDEDNESS?-3:-1;
	int tc = want==1?RET_SIMPLE_STATUS_P1:want==0?RET_SIMPLE_STATUS_P0:want==-1?RET_SIMPLE_STATUS_M1:want==-2?RET_SIMPLE_STATUS_M2:RET_SIMPLE_STATUS_M3;
	if ( s!=want ) mc::fail( "simple status",mc::fmt( "returned %d, expected %d",s,want ) );
	else if ( !still ) mc::fail( "simple status","visibility of infos changed" );
	else if ( pr ? out.find( text( tc ) )==std::string::npos : !out.empty( ) ) mc::fail( "simple status","printed '"+out+"'" );
	mc::outcome( mc::fmt( "%d ",s )+out );
}
static void listing( mc::u64 i )
{
	mc::key( i?"listAllMessages without file":"listAllMessages" ); mc::evaluation( ); mc::transition( );
	char* p=0; size_t n=0; FILE* f=open_memstream( &p,&n ); MessageHandling* g=getGlobalMessageHandler( ); g->setOutputFile( i?0:f ); int rv=(int)g->listAllMessages( ); g->setOutputFile( stdout ); fclose( f ); std::string out( p?p:"",n ); free( p );
	if ( rv!=0 ) mc::fail( "list",mc::fmt( "returned %d",rv ) );
	if ( i ) { if ( !out.empty( ) ) mc::fail( "list","printed without file" ); return; }
	std::vector<std::string> L; size_t a=0; while( a<out.size( ) ) { size_t e=out.find( '\n',a ); if ( e==std::string::npos ) e=out.size( ); L.push_back( out.substr( a,e-a ) ); a=e+1; }
	if ( (int)L.size( )!=LAST+1 ) { mc::fail( "list",mc::fmt( "%d lines for %d codes",(int)L.size( ),LAST+1 ) ); return; }
	for( int c=0; c<=LAST; ++c ) if ( L[c].find( mc::fmt( " %d - ",c )+text( c ) )!=0 ) { mc::fail( "list","line '"+L[c]+"' is not that of code "+mc::fmt( "%d",c ) ); return; }
	mc::outcome( out.substr( 0,500 ) );
}
// small helpers on value alphabets
static const double V[] = {0,-0.0,1,-1,2,0.5,1e-12,-1e-12,1e12,-1e20,1e20,1e-300,2.220446049250313e-16,1.0000000001};
enum { NV=sizeof(V)/sizeof(V[0]) };
static void helpers( mc::u64 i )
{
	mc::Dec d( i ); double x=V[d( NV )],y=V[d( NV )],t=V[d( NV )]; mc::key( mc::fmt( "helpers x=%.17g y=%.17g tol=%.17g",x,y,t ) ); mc::evaluation( ); mc::transition( );
	auto ck=[&]( const char* nm, bool ok ) { if ( !ok ) mc::fail( "helper",std::string( nm )+" wrong" ); };
	ck( "isEqual",( REFER_NAMESPACE_QPOASES isEqual( x,y,t )==BT_TRUE ) == ( fabs( x-y )<=t ) ); ck( "isZero",( REFER_NAMESPACE_QPOASES isZero( x,t )==BT_TRUE ) == ( fabs( x )<=t ) );
	ck( "isEqual default",( REFER_NAMESPACE_QPOASES isEqual( x,y )==BT_TRUE ) == ( fabs( x-y )<=ZERO ) ); ck( "isZero default",( REFER_NAMESPACE_QPOASES isZero( x )==BT_TRUE ) == ( fabs( x )<=ZERO ) );
	ck( "getSign",getSign( x )==( x>=0?1.0:-1.0 ) ); ck( "getMax",getMax( x,y )==( x>y?x:y ) ); ck( "getMin",getMin( x,y )==( x<y?x:y ) ); ck( "getAbs",getAbs( x )==fabs( x ) ); if ( x>=0 ) ck( "getSqrt",getSqrt( x )==sqrt( x ) );
	int_t a=(int_t)std::max( -1e9,std::min( 1e9,x ) ),b=(int_t)std::max( -1e9,std::min( 1e9,y ) ); ck( "getMax(int)",getMax( a,b )==( a>b?a:b ) ); ck( "getMin(int)",getMin( a,b )==( a<b?a:b ) );
	double v[3]={x,y,t}; ck( "getNorm1",getNorm( v,3,1 )==fabs( x )+fabs( y )+fabs( t ) ); double n2=sqrt( x*x+y*y+t*t ); ck( "getNorm2",fabs( getNorm( v,3,2 )-n2 )<=1e-14*n2 ); ck( "getNorm empty",getNorm( v,0 )==0 );
	mc::outcome( mc::fmt( "%g %g %d",getMax( x,y ),getMin( x,t ),(int)REFER_NAMESPACE_QPOASES isEqual( x,y,t ) ) );
}
static void enums( mc::u64 i )
{
	int v=(int)i-4; mc::key( mc::fmt( "enum value %d to string",v ) ); mc::evaluation( ); char s[24]; std::string o;
	auto ck=[&]( const char* nm, const char* want ) { o+=s; if ( strcmp( s,want ) ) mc::fail( "enum",std::string( nm )+" gives '"+s+"', expected '"+want+"'" ); };
	if ( v==0 || v==1 ) { memset( s,1,24 ); convertBooleanTypeToString( (BooleanType)v,s ); ck( "boolean",v==BT_TRUE?"BT_TRUE":"BT_FALSE" ); }
	memset( s,1,24 ); convertSubjectToStatusToString( (SubjectToStatus)v,s ); ck( "status",v==ST_LOWER?"ST_LOWER":v==ST_INACTIVE?"ST_INACTIVE":v==ST_UPPER?"ST_UPPER":v==ST_INFEASIBLE_LOWER?"ST_INFEASIBLE_LOWER":v==ST_INFEASIBLE_UPPER?"ST_INFEASIBLE_UPPER":v==ST_UNDEFINED?"ST_UNDEFINED":"<invalid value>" );
	memset( s,1,24 ); convertPrintLevelToString( (PrintLevel)v,s ); ck( "print level",v==PL_NONE?"PL_NONE":v==PL_LOW?"PL_LOW":v==PL_MEDIUM?"PL_MEDIUM":v==PL_HIGH?"PL_HIGH":v==PL_TABULAR?"PL_TABULAR":v==PL_DEBUG_ITER?"PL_DEBUG_ITER":"<invalid value>" );
	mc::outcome( o );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C32",RULE,[]
	{
		ops( ); int N=(int)OPS.size( );
		mc::addSection( "codes",(mc::u64)( LAST+20 )*3*2*3,codes ); mc::addSection( "meaning",21,meaning ); mc::addSection( "status",(mc::u64)( LAST+6 )*8,statusPrint ); mc::addSection( "list",2,listing );
		mc::addSection( "helpers",(mc::u64)NV*NV*NV,helpers ); mc::addSection( "enums",14,enums );
		int dep=mc::thorough?5:4; mc::u64 tot=1; for( int k=0; k<dep; ++k ) tot*=N;
		mc::addSection( "sequences",tot,[dep,N]( mc::u64 i ) { mc::Dec d( i ); std::vector<int> h; for( int k=0; k<dep; ++k ) h.push_back( d( N ) ); hist( h ); } );
	} );
}
