// C18: the index set machinery of working sets behaves like its mathematical model under every operation sequence
#include "mc.hpp"
#include <qpOASES.hpp>
USING_NAMESPACE_QPOASES
static const char* RULE =
	"Breadth-first search over all states reachable from the fresh object by the public operations (explicit visited set, no depth bound: the state space for the given size is finite and closed). "
	"Model state: type and status per item and the two ordered index lists; every transition is executed on a copy of the real object (exercising copy construction and assignment) and on the model, and every query of "
	"the real object is compared with the model afterwards.  states = distinct model states, transitions = executed operations, traces validated = transitions whose real successor matched.";
struct M                                   // reference model of Bounds / Constraints
{
	int n; std::vector<int> st,ty; std::vector<int> a,b;   // a: free / inactive, b: fixed / active
	std::string key( ) const { std::string s; for( int x : st ) s += (char)( 'a'+x+1 ); for( int x : ty ) s += (char)( 'a'+x+1 ); for( int x : a ) s += (char)( '0'+x ); s += '|'; for( int x : b ) s += (char)( '0'+x ); return s; }
};
static void rm( std::vector<int>& v, int x ) { v.erase( std::remove( v.begin( ),v.end( ),x ),v.end( ) ); }
static Indexlist* LA( Bounds& o ) { return o.getFree( ); }        static Indexlist* LB( Bounds& o ) { return o.getFixed( ); }
static Indexlist* LA( Constraints& o ) { return o.getInactive( ); } static Indexlist* LB( Constraints& o ) { return o.getActive( ); }
static returnValue setup( Bounds& o, int i, SubjectToStatus s ) { return o.setupBound( i,s ); }
static returnValue setup( Constraints& o, int i, SubjectToStatus s ) { return o.setupConstraint( i,s ); }
static returnValue all( Bounds& o, int s ) { return s==0 ? o.setupAllFree( ) : s<0 ? o.setupAllLower( ) : o.setupAllUpper( ); }
static returnValue all( Constraints& o, int s ) { return s==0 ? o.setupAllInactive( ) : s<0 ? o.setupAllLower( ) : o.setupAllUpper( ); }
static returnValue act( Bounds& o, int i, SubjectToStatus s ) { return o.moveFreeToFixed( i,s ); }
static returnValue act( Constraints& o, int i, SubjectToStatus s ) { return o.moveInactiveToActive( i,s ); }
static returnValue deact( Bounds& o, int i ) { return o.moveFixedToFree( i ); }
static returnValue deact( Constraints& o, int i ) { return o.moveActiveToInactive( i ); }
static returnValue swp( Bounds& o, int i, int j ) { return o.swapFree( i,j ); }
static returnValue swp( Constraints&, int, int ) { return RET_NOT_YET_IMPLEMENTED; }
static bool canSwap( Bounds& ) { return true; }  static bool canSwap( Constraints& ) { return false; }
static void counts( Bounds& o, int* c ) { c[0]=o.getNV( ); c[1]=o.getNFV( ); c[2]=o.getNBV( ); c[3]=o.getNUV( ); c[4]=o.getNFR( ); c[5]=o.getNFX( ); }
static void counts( Constraints& o, int* c ) { c[0]=o.getNC( ); c[1]=o.getNEC( ); c[2]=o.getNIC( ); c[3]=o.getNUC( ); c[4]=o.getNIAC( ); c[5]=o.getNAC( ); }

static std::string listDiff( Indexlist* l, const std::vector<int>& v, int n )
{
	if ( (size_t)l->getLength( ) != v.size( ) ) return mc::fmt( "length %d, model %d",(int)l->getLength( ),(int)v.size( ) );
	int_t *num=0,*srt=0; if ( l->getNumberArray( &num )!=SUCCESSFUL_RETURN || l->getISortArray( &srt )!=SUCCESSFUL_RETURN ) return "array query failed";
	for( size_t i=0; i<v.size( ); ++i ) if ( num[i]!=v[i] ) return mc::fmt( "entry %d is %d, model %d",(int)i,(int)num[i],v[i] );
	std::vector<int> s = v; std::sort( s.begin( ),s.end( ) );
	for( size_t i=0; i<v.size( ); ++i ) { if ( srt[i]<0 || srt[i]>=(int)v.size( ) || num[srt[i]]!=s[i] ) return mc::fmt( "sorted view wrong at %d",(int)i ); }
	for( int x=-1; x<=n; ++x )
	{
		auto it = std::find( v.begin( ),v.end( ),x ); int pos = it==v.end( ) ? -1 : (int)( it-v.begin( ) );
		if ( l->getIndex( x )!=pos ) return mc::fmt( "getIndex(%d)=%d, model %d",x,(int)l->getIndex( x ),pos );
		if ( ( l->isMember( x )==BT_TRUE ) != ( pos>=0 ) ) return mc::fmt( "isMember(%d) wrong",x );
	}
	if ( !v.empty( ) && l->getLastNumber( )!=v.back( ) ) return "last number wrong";
	return "";
}
template<class B> static std::string diff( B& o, const M& m )
{
	int c[6]; counts( o,c );
	auto cnt = [&]( int t ) { return (int)std::count( m.ty.begin( ),m.ty.end( ),t ); };
	int e[6] = { m.n,cnt( ST_EQUALITY ),cnt( ST_BOUNDED ),cnt( ST_UNBOUNDED ),(int)m.a.size( ),(int)m.b.size( ) };
	for( int i=0; i<6; ++i ) if ( c[i]!=e[i] ) return mc::fmt( "count %d is %d, model %d",i,c[i],e[i] );
	for( int i=0; i<m.n; ++i ) { if ( o.getStatus( i )!=m.st[i] ) return mc::fmt( "status of %d is %d, model %d",i,(int)o.getStatus( i ),m.st[i] ); if ( o.getType( i )!=m.ty[i] ) return mc::fmt( "type of %d is %d, model %d",i,(int)o.getType( i ),m.ty[i] ); }
	if ( o.getStatus( -1 )!=ST_UNDEFINED || o.getStatus( m.n )!=ST_UNDEFINED || o.getType( -1 )!=ST_UNKNOWN || o.getType( m.n )!=ST_UNKNOWN ) return "out-of-range query";
	std::string d = listDiff( LA( o ),m.a,m.n ); if ( !d.empty( ) ) return "free/inactive list: " + d;
	d = listDiff( LB( o ),m.b,m.n ); if ( !d.empty( ) ) return "fixed/active list: " + d;
	return "";
}
static void rebuild( M& m ) { m.a.clear( ); m.b.clear( ); for( int i=0; i<m.n; ++i ) ( m.st[i]==ST_INACTIVE ? m.a : m.b ).push_back( i ); }

struct OpR { std::string nm; bool ok; bool bad; };     // ok: legal in the model, executed; bad: an error code is expected and nothing may change
// op numbering: see nOps
template<class B> static int nOps( int n ) { return n*3+3 + n*2 + n + n + n*n + (n+2) + (n+2) + n*3 + 3; }
template<class B> static bool apply( int op, M& m, B* o, std::string& nm, returnValue& rv, int& expect )
{
	// expect: 1 success, 0 error; returns false if the operation is outside the contract in this state
	int n = m.n; static const SubjectToStatus SS[3] = {ST_INACTIVE,ST_LOWER,ST_UPPER}; static const SubjectToType TT[3] = {ST_UNBOUNDED,ST_BOUNDED,ST_EQUALITY};
	bool complete = std::count( m.st.begin( ),m.st.end( ),ST_UNDEFINED )==0, fresh = std::count( m.st.begin( ),m.st.end( ),ST_UNDEFINED )==n;
	expect = 1; rv = SUCCESSFUL_RETURN;
	if ( op < n*3 ) { int i=op/3; SubjectToStatus s=SS[op%3]; nm = mc::fmt( "setup(%d,%d)",i,(int)s ); if ( m.st[i]!=ST_UNDEFINED ) { if ( m.st[i]!=s ) return false; expect=0; } else { m.st[i]=s; ( s==ST_INACTIVE ? m.a : m.b ).push_back( i ); } if ( o ) rv = setup( *o,i,s ); return true; } op-=n*3;
	if ( op < 3 ) { int s=op-1; nm = mc::fmt( "setupAll(%d)",s ); if ( !fresh ) return false; for( int pass=0; pass<4; ++pass ) for( int i=0; i<n; ++i ) { int t=m.ty[i]; int w = t==ST_UNBOUNDED?0:t==ST_BOUNDED?1:t==ST_EQUALITY?2:3; if ( w!=pass ) continue; m.st[i] = s==0?ST_INACTIVE:s<0?ST_LOWER:ST_UPPER; ( s==0 ? m.a : m.b ).push_back( i ); } if ( o ) rv = all( *o,s ); return true; } op-=3;
	if ( op < n*2 ) { int i=op/2; SubjectToStatus s=SS[1+op%2]; nm = mc::fmt( "activate(%d,%d)",i,(int)s ); if ( m.st[i]!=ST_INACTIVE ) return false; m.st[i]=s; rm( m.a,i ); m.b.push_back( i ); if ( o ) rv = act( *o,i,s ); return true; } op-=n*2;
	if ( op < n ) { int i=op; nm = mc::fmt( "deactivate(%d)",i ); if ( m.st[i]!=ST_LOWER && m.st[i]!=ST_UPPER ) return false; m.st[i]=ST_INACTIVE; rm( m.b,i ); m.a.push_back( i ); if ( o ) rv = deact( *o,i ); return true; } op-=n;
	if ( op < n ) { int i=op; nm = mc::fmt( "flip(%d)",i ); if ( m.st[i]==ST_LOWER ) m.st[i]=ST_UPPER; else if ( m.st[i]==ST_UPPER ) m.st[i]=ST_LOWER; else expect=0; if ( o ) rv = o->flipFixed( i ); return true; } op-=n;
	if ( op < n*n ) { int i=op/n,j=op%n; nm = mc::fmt( "swap(%d,%d)",i,j ); if ( o ) { if ( !canSwap( *o ) ) return false; } else return false;
		if ( m.st[i]==ST_INACTIVE && m.st[j]==ST_INACTIVE ) { auto x=std::find( m.a.begin( ),m.a.end( ),i ), y=std::find( m.a.begin( ),m.a.end( ),j ); std::swap( *x,*y ); } else if ( m.st[i]!=m.st[j] ) expect=0; else if ( i==j ) return false; else expect=0; rv = swp( *o,i,j ); return true; } op-=n*n;
	if ( op < n+2 ) { int k=op-1; nm = mc::fmt( "shift(%d)",k ); if ( !complete ) return false;
		if ( n<=1 || k==0 ) { } else if ( k<0 || k>n/2 || n%k!=0 ) expect=0; else { for( int i=0; i<n-k; ++i ) { m.st[i]=m.st[i+k]; m.ty[i]=m.ty[i+k]; } rebuild( m ); } if ( o ) rv = o->shift( k ); return true; } op-=n+2;
	if ( op < n+2 ) { int k=op-1; nm = mc::fmt( "rotate(%d)",k ); if ( !complete ) return false;
		if ( n<=1 || k==0 || k==n ) { } else if ( k<0 || k>n ) expect=0; else { std::rotate( m.st.begin( ),m.st.begin( )+k,m.st.end( ) ); std::rotate( m.ty.begin( ),m.ty.begin( )+k,m.ty.end( ) ); rebuild( m ); } if ( o ) rv = o->rotate( k ); return true; } op-=n+2;
	if ( op < n*3 ) { int i=op/3; nm = mc::fmt( "setType(%d,%d)",i,op%3 ); if ( !fresh && !complete ) return false; m.ty[i]=TT[op%3]; if ( o ) rv = o->setType( i,TT[op%3] ); return true; } op-=n*3;
	if ( op==0 ) { nm = "init"; m.st.assign( n,ST_UNDEFINED ); m.ty.assign( n,ST_UNKNOWN ); m.a.clear( ); m.b.clear( ); if ( o ) rv = o->init( n ); return true; }
	if ( op==1 ) { nm = "out-of-range calls"; expect=0; if ( o ) { rv = setup( *o,-1,ST_LOWER ); if ( rv!=SUCCESSFUL_RETURN ) rv = setup( *o,n,ST_LOWER ); if ( rv!=SUCCESSFUL_RETURN ) rv = act( *o,n,ST_LOWER ); if ( rv!=SUCCESSFUL_RETURN ) rv = act( *o,-1,ST_LOWER ); if ( rv!=SUCCESSFUL_RETURN ) rv = deact( *o,n ); if ( rv!=SUCCESSFUL_RETURN ) rv = deact( *o,-1 );
		if ( rv!=SUCCESSFUL_RETURN ) rv = o->flipFixed( n ); if ( rv!=SUCCESSFUL_RETURN ) rv = o->flipFixed( -1 ); if ( rv!=SUCCESSFUL_RETURN ) rv = swp( *o,0,n ); if ( rv!=SUCCESSFUL_RETURN ) rv = swp( *o,-1,0 ); if ( rv!=SUCCESSFUL_RETURN ) rv = o->setType( n,ST_BOUNDED ); if ( rv!=SUCCESSFUL_RETURN ) rv = o->setStatus( -1,ST_LOWER ); if ( rv!=SUCCESSFUL_RETURN ) rv = setup( *o,0,ST_UNDEFINED ); } return true; }
	if ( op==2 ) { nm = "self-assignment"; if ( o ) { B& r = *o; *o = r; } return true; }
	return false;
}
template<class B> static void bfs( int n, int part, int parts, const char* cls )
{
	getGlobalMessageHandler( )->setErrorVisibilityStatus( VS_HIDDEN ); getGlobalMessageHandler( )->setWarningVisibilityStatus( VS_HIDDEN ); getGlobalMessageHandler( )->setInfoVisibilityStatus( VS_HIDDEN );
	struct Node { M m; B o; std::string path; };
	std::set<std::string> seen; std::vector<Node> cur,nxt; M m0; m0.n=n; m0.st.assign( n,ST_UNDEFINED ); m0.ty.assign( n,ST_UNKNOWN );
	// partition: initial types of the items
	B o0( n ); std::string nm0; returnValue rv; int ex,p=part; (void)parts;
	for( int i=0; i<n; ++i ) { int t=p%4; p/=4; if ( t==3 ) continue; int op = n*3+3+n*2+n+n+n*n+(n+2)+(n+2)+3*i+t; apply<B>( op,m0,&o0,nm0,rv,ex ); }
	{ Node x = { m0,o0,"" }; cur.push_back( x ); } seen.insert( m0.key( ) ); mc::state( mc::hashStr( std::string( cls )+m0.key( ) ) );
	int depth=0;
	while( !cur.empty( ) )
	{
		nxt.clear( );
		for( size_t c=0; c<cur.size( ); ++c )
			for( int op=0; op<nOps<B>( n ); ++op )
			{
				// type changes and re-initialisation leave the partition of this run: executed and compared, but not expanded
				int tbase = n*3+3+n*2+n+n+n*n+(n+2)+(n+2); bool leaf = op>=tbase && op<=tbase+n*3;
				M m = cur[c].m; B o( cur[c].o ); std::string nm; if ( !apply<B>( op,m,&o,nm,rv,ex ) ) continue;
				mc::transition( ); 
				snprintf( mc::S->w[mc::self].key,400,"%s n=%d types%d%s %s",cls,n,part,cur[c].path.c_str( ),nm.c_str( ) );
				if ( ( rv==SUCCESSFUL_RETURN ) != ( ex==1 ) ) { mc::fail( "return-value",mc::fmt( "returned %d, expected %s",(int)rv,ex?"success":"an error" ) ); return; }
				std::string d = diff( o,m ); if ( d.empty( ) ) { B o2( 1 ); o2 = o; d = diff( o2,m ); if ( !d.empty( ) ) d = "after assignment: " + d; }
				if ( d.empty( ) ) d = diff( cur[c].o,cur[c].m );
				if ( !d.empty( ) ) { mc::fail( "state",d ); return; }
				mc::traceValidated( );
				if ( leaf ) continue;
				if ( seen.insert( m.key( ) ).second ) { mc::state( mc::hashStr( std::string( cls )+m.key( ) ) ); Node x = { m,o,cur[c].path + " " + nm }; nxt.push_back( x ); mc::sample( std::string( cls ) + x.path + " -> " + m.key( ) ); }
			}
		cur.swap( nxt ); ++depth;
	}
	mc::evaluation( );
}
// plain index lists: numbers from a universe larger than the list
static void listBfs( int cap, int uni, int first )
{
	getGlobalMessageHandler( )->setErrorVisibilityStatus( VS_HIDDEN );
	struct Node { std::vector<int> v; Indexlist l; std::string path; };
	std::set<std::vector<int> > seen; std::vector<Node> cur,nxt; { Node x; x.l = Indexlist( cap ); if ( first>=0 ) { x.l.addNumber( first ); x.v.push_back( first ); } cur.push_back( x ); } seen.insert( cur[0].v );
	while( !cur.empty( ) )
	{
		nxt.clear( );
		for( auto& c : cur )
			for( int op=0; op<uni*( 2+uni )+1; ++op )
			{
				std::vector<int> v=c.v; Indexlist l( c.l ); std::string nm; returnValue rv; bool ok=true;
				if ( op<uni ) { int x=op; nm=mc::fmt( "add %d",x ); if ( std::count( v.begin( ),v.end( ),x ) ) continue; rv=l.addNumber( x ); if ( (int)v.size( )>=cap ) ok=false; else v.push_back( x ); }
				else if ( op<2*uni ) { int x=op-uni; nm=mc::fmt( "remove %d",x ); rv=l.removeNumber( x ); rm( v,x ); }
				else if ( op<uni*( 2+uni ) ) { int x=(op-2*uni)/uni,y=(op-2*uni)%uni; nm=mc::fmt( "swap %d %d",x,y ); auto a=std::find( v.begin( ),v.end( ),x ),b=std::find( v.begin( ),v.end( ),y ); rv=l.swapNumbers( x,y ); if ( a==v.end( ) || b==v.end( ) ) ok=false; else std::swap( *a,*b ); }
				else { nm="assign"; Indexlist k( 2 ); k = l; l = k; rv=SUCCESSFUL_RETURN; }
				mc::transition( ); mc::key( mc::fmt( "list cap %d",cap ) + c.path + " " + nm );
				if ( ( rv==SUCCESSFUL_RETURN ) != ok ) { mc::fail( "return-value",mc::fmt( "returned %d",(int)rv ) ); return; }
				std::string d = listDiff( &l,v,uni ); if ( d.empty( ) ) d = listDiff( &c.l,c.v,uni );
				if ( !d.empty( ) ) { mc::fail( "state",d ); return; }
				mc::traceValidated( );
				if ( seen.insert( v ).second ) { mc::state( mc::hashBytes( v.data( ),v.size( )*sizeof(int) )+cap*77 ); Node x; x.v=v; x.l=l; x.path=c.path + " " + nm; nxt.push_back( x ); }
			}
		cur.swap( nxt );
	}
	mc::evaluation( );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C18",RULE,[]
	{
		int N = mc::thorough ? 5 : 4; mc::caseLimit = 600;
		for( int n=1; n<=N; ++n )
		{
			int parts=1; for( int i=0; i<n; ++i ) parts*=4;
			// full type product up to n=3, for larger n the assignments with one common type
			if ( n>3 )
			{
				mc::addSection( mc::fmt( "bounds_n%d",n ),n==4?4:1,[n,parts]( mc::u64 i ) { bfs<Bounds>( n,( n==4?(int)i:3 )*( parts-1 )/3,1,"bounds" ); },1 );
				mc::addSection( mc::fmt( "constraints_n%d",n ),n==4?4:1,[n,parts]( mc::u64 i ) { bfs<Constraints>( n,( n==4?(int)i:3 )*( parts-1 )/3,1,"constraints" ); },1 );
				continue;
			}
			mc::addSection( mc::fmt( "bounds_n%d",n ),parts,[n,parts]( mc::u64 i ) { bfs<Bounds>( n,(int)i,parts,"bounds" ); },1 );
			mc::addSection( mc::fmt( "constraints_n%d",n ),parts,[n,parts]( mc::u64 i ) { bfs<Constraints>( n,(int)i,parts,"constraints" ); },1 );
		}
		for( int cap=0; cap<=( mc::thorough?6:5 ); ++cap ) mc::addSection( mc::fmt( "list_%d",cap ),1,[cap]( mc::u64 ) { listBfs( cap,cap+1,-1 ); },1 );
	} );
}
