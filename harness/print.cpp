// C31: output never influences results; the iteration log tells the truth.
#include "worlds.hpp"
static const char* RULE = "All call sequences up to the depth, each executed once per print level and with the level changed on the way: all observations must be bit-identical to the silent execution, the silent one prints nothing, every printed byte is a printable character (automatic variables are pre-filled with a pattern). "
	"For every QP of the families and every option variant, the tabular and the medium log of an initialisation and a hotstart are parsed and replayed from the working set before the first iteration: the result has to be the final working set, line counts and counters those of the run.";
static std::vector<World> W;

struct Cap      // captures everything printed through the message handler
{
	char* p; size_t n; FILE* f;
	Cap( ) { p=0; n=0; f=open_memstream( &p,&n ); hook( ); }
	void hook( ) { getGlobalMessageHandler( )->setOutputFile( f ); }
	std::string take( ) { fflush( f ); std::string s( p,n ); rewind( f ); fflush( f ); return s.substr( 0 ); }
	~Cap( ) { getGlobalMessageHandler( )->setOutputFile( stdout ); fclose( f ); free( p ); }
};
static std::string bad( const std::string& s ) { for( size_t i=0; i<s.size( ); ++i ) if ( !( s[i]=='\n' || s[i]=='\t' || ( s[i]>=32 && s[i]<127 ) ) ) return mc::fmt( "byte 0x%02x at %d of ",(unsigned char)s[i],(int)i )+s.substr( i>40?i-40:0,40 ); return ""; }
template<class P> struct Dim { static P* make( int n, int m, HessianType h ) { return new P( n,m,h ); } };
template<> struct Dim<QProblemB> { static QProblemB* make( int n, int, HessianType h ) { return new QProblemB( n,h ); } };
static const PrintLevel LV[] = { PL_NONE,PL_DEBUG_ITER,PL_TABULAR,PL_LOW,PL_MEDIUM,PL_HIGH };
static const char* LN[] = {"none","debug-iter","tabular","low","medium","high"};

// ops
enum { INIT0, INIT1, INITID, INITZERO, HOT2, HOT3, HOTINF, CUT, MAT, RESET, BADCALL, PROPS, NOPS };
static const char* ON[] = {"init0","init1","initNoHessian(identity)","initNoHessian(zero)","hot2","hot3","hotInfeas","hotCut","mat1","reset","badCall","printProperties"};
template<class P> returnValue mat( P&, const QP&, int_t& n ) { return RET_NOT_YET_IMPLEMENTED; }
template<> returnValue mat<SQProblem>( SQProblem& p, const QP& q, int_t& n ) { return dHotM( p,q,n ); }
template<> returnValue mat<SQProblemSchur>( SQProblemSchur& p, const QP& q, int_t& n ) { return dHotM( p,q,n ); }
static returnValue initNoH( QProblemB& p, const QP& q, int_t& n ) { return p.init( (double*)0,q.g,q.lb,q.ub,n ); }
static returnValue initNoH( QProblem& p, const QP& q, int_t& n ) { return p.init( (double*)0,q.g,q.A,q.lb,q.ub,q.lbA,q.ubA,n ); }
static const char* NF = "/nonexistent/file";
static returnValue badFile( QProblemB& p ) { int_t n=5; return p.init( NF,NF,NF,NF,n ); }
static returnValue badFile( QProblem& p ) { int_t n=5; return p.init( NF,NF,NF,NF,NF,NF,NF,n ); }
template<class P> Obs step( P& p, const World& w, int op, bool printAll )
{
	int_t n=60; returnValue rv=SUCCESSFUL_RETURN;
	switch( op )
	{
		case INIT0: rv=dInit( p,w.d[0],n ); break;
		case INIT1: rv=dInit( p,w.d[1],n ); break;
		case INITID: p.reset( ); p.setHessianType( HST_IDENTITY ); rv=initNoH( p,w.d[0],n ); break;
		case INITZERO: p.reset( ); p.setHessianType( HST_ZERO ); rv=initNoH( p,w.d[2],n ); break;
		case HOT2: rv=dHot( p,w.d[2],n ); break;
		case HOT3: rv=dHot( p,w.d[3],n ); break;
		case HOTINF: rv=dHot( p,w.d[4],n ); break;
		case CUT: n=1; rv=dHot( p,w.d[3],n ); break;
		case MAT: rv=mat( p,w.d[1],n ); break;
		case RESET: rv=p.reset( ); break;
		case BADCALL: rv=badFile( p ); n=0; break;
		case PROPS: if ( printAll ) { p.printProperties( ); p.printOptions( ); } break;
	}
	return observe( p,w.n,w.m,rv,n );
}
template<class P> void levels( const World& w, int var, const std::vector<int>& h, int l, bool midChange )
{
	Cap c; Options o=variant( var ); o.printLevel=PL_NONE;
	P* a=Dim<P>::make( w.n,w.m,HST_UNKNOWN ); a->setOptions( o ); c.hook( ); std::vector<Obs> ref;
	for( int op : h ) { ref.push_back( step( *a,w,op,false ) ); c.hook( ); mc::transition( ); }
	delete a;
	std::string quiet=c.take( ); if ( quiet!="" ) { mc::fail( "silent","print level none printed: "+quiet.substr( 0,200 ) ); return; }
	if ( l==0 ) return;
	o.printLevel = midChange ? PL_NONE : LV[l];
	P* b=Dim<P>::make( w.n,w.m,HST_UNKNOWN ); b->setOptions( o ); c.hook( ); std::string log;
	for( size_t i=0; i<h.size( ); ++i )
	{
		if ( midChange && i==1 ) b->setPrintLevel( LV[l] );
		Obs x=step( *b,w,h[i],true ); c.hook( ); mc::transition( ); std::string why;
		if ( !sameBits( ref[i],x,w.n,w.m,&why ) ) { mc::fail( "results","print level "+std::string( LN[l] )+" changes the result of call "+mc::fmt( "%d: ",(int)i )+why ); delete b; return; }
		std::string s=c.take( ); log+=s; std::string q=bad( s ); if ( q!="" ) { mc::fail( "garbage","unprintable output: "+q ); delete b; return; }
	}
	delete b; mc::traceValidated( ); mc::state( mc::hashStr( log ) ); mc::outcome( log,log.size( )>0 ); mc::sample( log.substr( 0,700 ) );
}

// ---------------------------------------------------------------- log replay
struct Line { int iter; bool star; int add[2],rem[2]; char ea[2],er[2]; std::vector<double> num; };        // [0] bound, [1] constraint
static int field( const std::string& s, size_t at, int w ) { std::string t=s.substr( at,w ); size_t k=t.find_first_not_of( ' ' ); return k==std::string::npos ? -1 : atoi( t.c_str( ) ); }
// w: digits of an index, fl: columns for a flag behind it
static bool tabular( const std::string& log, bool cons, int w, int fl, std::vector<Line>& out )
{
	size_t p=0; const size_t cw=w+fl+1, head = 6 + cw*( cons?4:2 );
	while( p<log.size( ) )
	{
		size_t e=log.find( '\n',p ); if ( e==std::string::npos ) return false; std::string s=log.substr( p,e-p ); p=e+1;
		if ( s.size( )<head+10 || s.find( "iter" )!=std::string::npos || s.find( "ERROR" )!=std::string::npos || s.find( "WARNING" )!=std::string::npos || s.find( "->" )!=std::string::npos ) continue;
		Line l; l.iter=atoi( s.substr( 0,5 ).c_str( ) ); l.star=s[5]=='*'; l.add[1]=l.rem[1]=-1; l.ea[0]=l.ea[1]=l.er[0]=l.er[1]=' ';
		for( int t=0; t<( cons?2:1 ); ++t ) { size_t at=6+2*cw*t; l.add[t]=field( s,at,w ); l.rem[t]=field( s,at+cw,w ); if ( fl ) { l.ea[t]=s[at+w]; l.er[t]=s[at+cw+w]; } }
		const char* c=s.c_str( )+head; char* q; while( true ) { double v=strtod( c,&q ); if ( q==c ) break; l.num.push_back( v ); c=q; }
		out.push_back( l );
	}
	return true;
}
struct MLine { bool solved,add,bound; int iter,idx,nFX,nAC; double tau; };
static bool medium( const std::string& log, bool cons, std::vector<MLine>& out )
{
	size_t p=0;
	while( p<log.size( ) )
	{
		size_t e=log.find( '\n',p ); if ( e==std::string::npos ) return false; std::string s=log.substr( p,e-p ); p=e+1;
		if ( s.find( " SOLVED" )==std::string::npos && s.find( "ADD " )==std::string::npos && s.find( "REM " )==std::string::npos ) continue;
		if ( s.find( '|' )==std::string::npos ) continue;
		std::vector<std::string> f; size_t b=0; while( true ) { size_t k=s.find( '|',b ); f.push_back( s.substr( b,k==std::string::npos?k:k-b ) ); if ( k==std::string::npos ) break; b=k+1; }
		if ( f.size( )!=( cons?5u:4u ) ) return false;
		MLine m; m.iter=atoi( f[0].c_str( ) ); m.tau=atof( f[1].c_str( ) ); m.solved=f[2].find( "SOLVED" )!=std::string::npos; m.add=f[2].find( "ADD" )!=std::string::npos; m.bound=f[2].find( "BND" )!=std::string::npos; m.idx=-1; if ( !m.solved ) { size_t k=f[2].find_first_of( "0123456789" ); m.idx = k!=std::string::npos ? atoi( f[2].c_str( )+k ) : -1; if ( m.bound==( f[2].find( "CON" )!=std::string::npos ) ) return false; }
		m.nFX=atoi( f[3].c_str( ) ); m.nAC=cons?atoi( f[4].c_str( ) ):0; out.push_back( m );
	}
	return true;
}
typedef std::vector<int> Act;
// activity after k working set changes of a silent twin with the same history; empty if it does not stop there
template<class P> Act twin( const QP& q0, const QP& q1, const Options& o, int call, int k )
{
	const int n=q0.n,m=q0.m; double w[NMAX+MMAX]; Options oq=o; oq.printLevel=PL_NONE; Act a;
	P* t=Dim<P>::make( n,m,HST_UNKNOWN ); t->setOptions( oq ); int_t j=60; returnValue rt;
	if ( call ) { dInit( *t,q0,j ); j=k; rt=dHot( *t,q1,j ); } else { j=k; rt=dInit( *t,q0,j ); }
	if ( ( rt==RET_MAX_NWSR_REACHED || rt==SUCCESSFUL_RETURN ) && j==k && t->isInitialised( )==BT_TRUE ) { t->getWorkingSet( w ); for( int i=0; i<n+m; ++i ) a.push_back( w[i]!=0 ); }
	delete t; return a;
}
static const char* SN[2] = {"bound","constraint"};
// the columns of one iteration belong together: one item changes, or an item is exchanged for another, or one changes sides
static std::string flags( const Line& l, bool have )
{
	int k=0,e=0,f=0; for( int s=0; s<2; ++s ) { if ( l.add[s]>=0 ) { ++k; e+=l.ea[s]=='e'; f+=l.ea[s]=='f'; } else if ( l.ea[s]!=' ' ) return "flag without item"; if ( l.rem[s]>=0 ) { ++k; e+=l.er[s]=='e'; f+=l.er[s]=='f'; } else if ( l.er[s]!=' ' ) return "flag without item"; }
	if ( !have ) return ""; bool flip=false; for( int s=0; s<2; ++s ) if ( l.add[s]>=0 && l.add[s]==l.rem[s] ) flip=true;
	if ( k==1 && ( e || f ) ) return "single change flagged as exchange or flip";
	if ( k==2 && flip && e+f!=1 ) return "flip not flagged";
	if ( k==2 && !flip && ( e!=1 || f ) ) return "exchange not flagged";
	if ( k>2 && e+f==0 ) return "more than two changes without flag";
	return "";
}
static const int KINDS = 3;       // tabular, medium, debug
template<class P> void replay( const QP& q0, const QP& q1, int var )
{
	const bool cons=!IsSimple<P>::v; const int n=q0.n,m=q0.m; Cap c; Options o=variant( var ); std::string vn; variant( var,&vn ); const bool exact=isPD( q0.H,n );
	std::vector<Act> tw[2];
	for( int kind=0; kind<KINDS; ++kind )
	{
		o.printLevel = kind==0 ? PL_TABULAR : kind==1 ? PL_MEDIUM : PL_DEBUG_ITER;
		P* p=Dim<P>::make( n,m,HST_UNKNOWN ); p->setOptions( o ); c.hook( );
		for( int call=0; call<2; ++call )
		{
			auto T = [&]( int k ) -> const Act& { while( (int)tw[call].size( )<=k ) { tw[call].push_back( twin<P>( q0,q1,o,call,(int)tw[call].size( ) ) ); p->setPrintLevel( o.printLevel ); c.hook( ); mc::transition( ); } return tw[call][k]; };
			Act in=T( 0 ); c.take( );
			int_t k=60; returnValue rv = call ? dHot( *p,q1,k ) : dInit( *p,q0,k ); std::string log=c.take( ); mc::transition( );
			std::string g=bad( log ); if ( g!="" ) { mc::fail( "garbage",g ); delete p; return; }
			if ( rv!=SUCCESSFUL_RETURN || in.empty( ) ) { mc::stat( "runs not replayed (not solved or nothing to do)" ); break; }
			double w1[NMAX+MMAX]; p->getWorkingSet( w1 ); Act end; for( int i=0; i<n+m; ++i ) end.push_back( w1[i]!=0 );
			std::string what;
			if ( kind!=1 )
			{
				std::vector<Line> L; if ( !tabular( log,cons,kind?4:5,kind?0:1,L ) ) what="cannot parse";
				double before=1; bool phases=false; for( auto& l : L ) phases|=l.star;      // between the phases of a regularised solve equalities may be activated
				int ch=0;
				for( auto& l : L )
				{
					for( int s=0; s<2; ++s ) if ( l.rem[s]>=( s?m:n ) || l.add[s]>=( s?m:n ) ) what=mc::fmt( "index out of range in iteration %d",l.iter );
					if ( what=="" ) { std::string f=flags( l,kind==0 ); if ( f!="" ) what=mc::fmt( "iteration %d: ",l.iter )+f; }
					if ( what!="" ) break;
					// one item may be added only to be removed again as part of an exchange, but what is logged has to fit
					for( int s=0; s<2; ++s ) if ( l.rem[s]>=0 ) { if ( !in[s*n+l.rem[s]] ) what=mc::fmt( "iteration %d removes %s %d, which is not active",l.iter,SN[s],l.rem[s] ); in[s*n+l.rem[s]]=0; }
					for( int s=0; s<2; ++s ) if ( l.add[s]>=0 ) { if ( in[s*n+l.add[s]] ) what=mc::fmt( "iteration %d adds %s %d, which is active already",l.iter,SN[s],l.add[s] ); in[s*n+l.add[s]]=1; }
					bool any = l.add[0]>=0||l.rem[0]>=0||l.add[1]>=0||l.rem[1]>=0; ch+=any;
					if ( what=="" && !phases && &l!=&L.back( ) ) { const Act& t=T( l.iter+1 ); if ( any && !t.empty( ) && t!=in ) for( int i=0; i<n+m; ++i ) if ( t[i]!=in[i] ) what=mc::fmt( "after iteration %d %s %d is %sactive, not according to the log",l.iter,SN[i>=n],i<n?i:i-n,t[i]?"":"in" ); }
					if ( what=="" && l.num.size( )!=( kind==0 ? 2u : cons ? 8u : 5u ) ) what="number of columns";
					if ( what=="" && !phases && before>1e-9 && !( l.num[1]>=-1e-12 && l.num[1]<=1 ) ) what=mc::fmt( "iteration %d: step length %g",l.iter,l.num[1] );
					if ( what=="" && !( l.num[0]>=0 ) ) what=mc::fmt( "iteration %d: remaining homotopy length %g",l.iter,l.num[0] );
					// far limits of one-sided items are not enforced on the other side
					if ( what=="" && kind==2 && exact ) for( size_t i=2; i<( cons?7u:5u ); ++i ) if ( !( ( var==14 || var==17 ) && ( i==3 || ( cons && i==4 ) ) ) && !( l.num[i]>=0 && l.num[i]<=1e-5 ) ) what=mc::fmt( "iteration %d: residual %g in column %d of the solution of the intermediate QP",l.iter,l.num[i],(int)i );
					if ( what!="" ) break;
					before=l.num[0];
				}
				if ( what=="" && !phases ) for( int i=0; i<n+m; ++i ) if ( in[i]!=end[i] ) what=mc::fmt( "log leaves %s %d %sactive",SN[i>=n],i<n?i:i-n,in[i]?"":"in" );
				if ( what=="" && ( L.empty( ) || L.back( ).add[0]+L.back( ).rem[0]+L.back( ).add[1]+L.back( ).rem[1]!=-4 ) ) what="last line is not the solution line";
				if ( what=="" && ch!=(int)k && !phases ) what=mc::fmt( "%d working set changes logged, %d reported",ch,(int)k );
				if ( what=="" && !( L.back( ).num[0]<=1.01*o.terminationTolerance ) ) what=mc::fmt( "remaining homotopy length %g of the last line",L.back( ).num[0] );
			}
			else
			{
				std::vector<MLine> L; if ( !medium( log,cons,L ) ) what="cannot parse";
				if ( what=="" && ( L.empty( ) || !L.back( ).solved ) ) what="log does not end with the solution line";
				bool phases=log.find( "*  |" )!=std::string::npos; int ch=0;
				for( size_t i=0; i<L.size( ) && what==""; ++i )
				{
					const MLine& l=L[i];
					if ( !l.solved ) { ++ch; if ( l.idx<0 || l.idx>=( l.bound?n:m ) ) { what=mc::fmt( "index out of range in iteration %d",l.iter ); break; } }
					else ch += i+1<L.size( ) && L[i+1].iter>l.iter;     // a full step that ended slightly off the target is continued in one more iteration, without a change
					if ( !phases && ( i==0 || !L[i-1].solved ) && !( l.tau>=-1e-12 && l.tau<=1 ) ) what=mc::fmt( "iteration %d: step length %g",l.iter,l.tau );
					if ( phases || ( l.solved && i+1<L.size( ) ) ) continue;
					const Act& t = i+1<L.size( ) ? T( l.iter+1 ) : end; if ( t.empty( ) ) continue;
					int nFX=0,nAC=0; for( int j=0; j<n; ++j ) nFX+=t[j]; for( int j=n; j<n+m; ++j ) nAC+=t[j];
					if ( l.nFX!=nFX || l.nAC!=nAC ) what=mc::fmt( "iteration %d: counters %d,%d, actual %d,%d",l.iter,l.nFX,l.nAC,nFX,nAC );
					const Act& b = T( l.iter ); int id=( l.bound?0:n )+l.idx;
					// the item named changes as stated, except when the change was undone at once by an exchange or a flip
					if ( what=="" && !l.solved && !b.empty( ) && b[id]==( l.add?1:0 ) ) what=mc::fmt( "iteration %d %s %s %d, which is %sactive",l.iter,l.add?"adds":"removes",SN[!l.bound],l.idx,l.add?"":"in" );
					if ( what=="" && !l.solved && l.add && !t[id] ) what=mc::fmt( "iteration %d adds %s %d, which is inactive afterwards",l.iter,SN[!l.bound],l.idx );
				}
				if ( what=="" && L.back( ).iter!=(int)k ) what=mc::fmt( "last iteration is %d, %d reported",L.back( ).iter,(int)k );
				if ( what=="" && ch!=(int)k ) what=mc::fmt( "%d working set changes logged, %d reported",ch,(int)k );
			}
			if ( what!="" ) { mc::fail( kind==0?"tabular log":kind==1?"medium log":"debug log",std::string( call?"hotstart":"init" )+": "+what+"; end "+vec( w1,n+m )+" log:\n"+log ); delete p; return; }
			mc::traceValidated( ); mc::state( mc::hashStr( log ) ); mc::outcome( log ); mc::sample( log.substr( 0,700 ) );
		}
		delete p;
	}
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C31",RULE,[]
	{
		W=worlds( ); const bool T=mc::thorough; static const int VARS[] = {0,2,14,1,7,3,12,10,4}; mc::registerStat( "runs not replayed (not solved or nothing to do)" );
		for( size_t wi=0; wi<W.size( ); ++wi ) for( int c=0; c<4; ++c )
		{
			if ( ( c==0 ) != ( W[wi].m==0 ) && !( c!=0 && wi==1 ) ) continue;
			std::vector<int> al; for( int o=0; o<NOPS; ++o ) if ( c>=2 || o!=MAT ) al.push_back( o );
			int len=T?4:3, nv=T?9:c==3?2:3; std::string nm=W[wi].name+( c==0?"_QProblemB":c==1?"_QProblem":c==2?"_SQProblem":"_SQProblemSchur" );
			mc::addSection( nm,ipow( al.size( ),len )*nv*11,[=]( mc::u64 i )
			{
				mc::Dec d( i ); int lv=d( 11 ),var=VARS[d( nv )]; std::vector<int> h; for( int k=0; k<len; ++k ) h.push_back( al[d( al.size( ) )] );
				int l = lv<6?lv:lv-5; std::string vn; variant( var,&vn ); std::string s; for( int o : h ) s+=std::string( " " )+ON[o];
				mc::key( nm+" "+vn+" level "+LN[l]+( lv<6?"":" from the second call on" )+":"+s ); mc::evaluation( );
				if ( c==0 ) levels<QProblemB>( W[wi],var,h,l,lv>=6 ); else if ( c==1 ) levels<QProblem>( W[wi],var,h,l,lv>=6 ); else if ( c==2 ) levels<SQProblem>( W[wi],var,h,l,lv>=6 ); else levels<SQProblemSchur>( W[wi],var,h,l,lv>=6 );
			} );
		}
		std::vector<Fam> F;
		F.push_back( family( "B2",2,0,{2,-1,-1,2},{},{{-2,1},{3,3},{-5,4},{0,-1}},{0,1,2,4,5},{} ) );
		F.push_back( family( "B3",3,0,{2,1,0,1,2,-1,0,-1,2},{},{{-2,1,3},{-5,4,0}},{0,2,5},{} ) );
		F.push_back( family( "B3z",3,0,{1,-1,0,-1,1,0,0,0,0},{},{{-2,1,3},{-5,4,0}},{0,2},{} ) );
		F.push_back( family( "Q22",2,2,{2,-1,-1,2},{{1,1},{1,-1}},{{-2,1},{-5,4}},{0,4,5},{0,2,5} ) );
		F.push_back( family( "Q32",3,2,{2,1,0,1,2,-1,0,-1,2},{{1,1,1},{1,-1,0}},{{-2,1,3},{-5,4,0}},{0,5},{0,2,3} ) );
		F.push_back( family( "Q22z",2,2,{0,0,0,0},{{1,1},{1,-1}},{{-2,1},{-5,4}},{0,1},{0,2,5} ) );
		F.push_back( family( "Q23",2,3,{1,0,0,1},{{1,1},{1,-1},{1,2}},{{-4,1},{-5,4}},{0,4},{0,2} ) );
		for( size_t fi=0; fi<F.size( ); ++fi )
		{
			for( int sch=0; sch<( F[fi].m?2:1 ); ++sch )
			{
			if ( sch && F[fi].name=="Q22z" ) continue;      // working sets of the Schur class for singular Hessians are repaired between the lines
			Fam f = thin( F[fi],( T?300:36 )/( sch+1 ) );
			mc::addSection( ( sch?"replaySchur_":"replay_" )+f.name,(mc::u64)f.d.size( )*f.d.size( )*NVAR,[f,sch]( mc::u64 i )
			{
				mc::Dec d( i ); int var=d( NVAR ); const QP& a=f.d[d( f.d.size( ) )]; const QP& b=f.d[d( f.d.size( ) )]; std::string vn; variant( var,&vn );
				mc::key( "replay "+vn+" "+show( a )+" then g="+vec( b.g,b.n )+" lb="+vec( b.lb,b.n )+" ub="+vec( b.ub,b.n )+" lbA="+vec( b.lbA,b.m )+" ubA="+vec( b.ubA,b.m ) ); mc::evaluation( );
				if ( f.m==0 ) replay<QProblemB>( a,b,var ); else if ( sch ) replay<SQProblemSchur>( a,b,var ); else replay<QProblem>( a,b,var );
			} );
			}
		}
	} );
}
