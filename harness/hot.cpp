// C05: every history of parametric QPs solved by hotstart gives the verdict and the solution of each QP itself
#include "drv.hpp"
static const char* RULE =
	"A trace is init(d1), hotstart(d2), ..., hotstart(dk) on one object, over every sequence of data vectors of a family (fixed H, A; all g / bound / constraint-bound "
	"patterns incl. fixed, one-sided, free and infeasible ones) and every option variant.  After every step the observed verdict and primal/dual pair are judged against the "
	"exact model (Fourier-Motzkin feasibility, KKT), so the answer may not depend on the history.  States are distinct (step, working set, solution, verdict) observations; "
	"transitions are init/hotstart calls.";
#include <limits>
enum { NS = 5 };
static std::vector<Fam> fams;
template<class P> static void runSeq( P& p, const Fam& f, const int* seq, int len, int var )
{
	Options o = variant( var ); p.setOptions( o );
	if ( getenv("DBG") ) { o.printLevel=PL_MEDIUM; p.setOptions(o); }
	Obs prev; memset( (void*)&prev,0,sizeof(prev) );
	for( int s=0; s<len; ++s )
	{
		const QP& q = f.d[seq[s]]; int_t n = 200;
		returnValue rv = s==0 ? dInit( p,q,n ) : dHot( p,q,n );
		Obs ob = observe( p,q.n,q.m,rv,n );
		mc::transition( ); if ( getenv("DBG") ) printf( "%s\n -> %s\n",show( q ).c_str( ),ob.str( q.n,q.m ).c_str( ) );
		std::string w = judge( q,ob,judgeIdx( var ),s>0 && ( !f.pd || prev.rv!=SUCCESSFUL_RETURN ) );
		if ( !w.empty( ) ) { mc::fail( mc::fmt( "%s-step%d",f.pd?"PD":"SD",s==0?0:1 ),mc::fmt( "step %d, ",s ) + w + " for " + show( q ) ); return; }
		if ( ob.rv!=SUCCESSFUL_RETURN ) mc::stat( "steps ended infeasible/unbounded" ); else mc::stat( "steps solved" );
		mc::state( mc::hashBytes( ob.ws,sizeof(double)*(f.n+f.m),mc::hashBytes( ob.x,sizeof(double)*f.n,mc::hashBytes( ob.y,sizeof(double)*(f.n+f.m),ob.rv*64+s ) ) ) );
		prev = ob;
	}
	mc::traceValidated( );
	mc::sample( mc::fmt( "%s: last QP ",f.name.c_str( ) ) + show( f.d[seq[len-1]] ) + " -> " + prev.str( f.n,f.m ) );
}
// the same QP with every infinite limit written as one of the values meaning "no limit"
static double SENT[] = {1e20,1e21,1e30,1.7976931348623157e308,std::numeric_limits<double>::infinity( )};
static const char* SN[] = {"1e20","1e21","1e30","max","Inf"};
static QP written( QP q, int k ) { double s=SENT[k]; for( int i=0; i<q.n; ++i ) { if ( q.lb[i]<=-INF ) q.lb[i]=-s; if ( q.ub[i]>=INF ) q.ub[i]=s; } for( int i=0; i<q.m; ++i ) { if ( q.lbA[i]<=-INF ) q.lbA[i]=-s; if ( q.ubA[i]>=INF ) q.ubA[i]=s; } return q; }
static void addWritten( Fam f, int len, int nvar, int cls )
{
	fams.push_back( f ); size_t fi = fams.size( )-1; static const int VARS[] = {2,0,3,14,1,6,16,15,4,5,7,8,9,10,11,12,13,17};
	mc::u64 cnt = nvar; for( int i=0; i<len; ++i ) cnt *= f.d.size( )*NS;
	mc::addSection( f.name+mc::fmt( "_written_len%d",len ),cnt,[fi,len,nvar,cls]( mc::u64 i )
	{
		const Fam& f = fams[fi]; mc::Dec d( i ); int var = VARS[d( nvar )]; int seq[8]; Fam g; g.n=f.n; g.m=f.m; g.pd=f.pd; g.name=f.name;
		std::string k, vn; variant( var,&vn );
		for( int s=0; s<len; ++s ) { int a = d( f.d.size( ) ), b = d( NS ); seq[s]=s; g.d.push_back( written( f.d[a],b ) ); k += mc::fmt( " %d/%s",a,SN[b] ); }
		mc::key( vn + " " + f.name + k ); mc::evaluation( );
		if ( cls==0 ) { QProblemB p( f.n ); runSeq( p,g,seq,len,var ); }
		else { QProblem p( f.n,f.m ); runSeq( p,g,seq,len,var ); }
	} );
}
static void add( Fam f, int len, int nvar, int cls )   // cls 0 QProblemB 1 QProblem 2 SQProblem
{
	fams.push_back( f ); size_t fi = fams.size( )-1;
	mc::u64 cnt = nvar; for( int i=0; i<len; ++i ) cnt *= f.d.size( );
	mc::addSection( f.name+mc::fmt( "_len%d",len ),cnt,[fi,len,nvar,cls]( mc::u64 i )
	{
		const Fam& f = fams[fi]; mc::Dec d( i ); int var = d( nvar ); int seq[8];
		std::string k, vn; variant( var,&vn );
		for( int s=0; s<len; ++s ) { seq[s] = d( f.d.size( ) ); k += mc::fmt( " %d",seq[s] ); }
		mc::key( vn + " " + f.name + k ); mc::evaluation( );
		if ( cls==0 ) { QProblemB p( f.n ); runSeq( p,f,seq,len,var ); }
		else if ( cls==1 ) { QProblem p( f.n,f.m ); runSeq( p,f,seq,len,var ); }
		else { SQProblem p( f.n,f.m ); runSeq( p,f,seq,len,var ); }
	} );
}
int main( int argc, char** argv )
{
	return mc::main( argc,argv,"C05",RULE,[]
	{
		mc::registerStat( "steps solved" ); mc::registerStat( "steps ended infeasible/unbounded" );
		fams.clear( ); fams.reserve( 200 );
		const bool T = mc::thorough;
		std::vector<double> H2a={2,-1,-1,2}, H2i={1,0,0,1}, H2s={1,-1,-1,1}, H2z={0,0,0,0}, H3={2,1,0,1,2,-1,0,-1,2}, H3i={1,0,0,0,1,0,0,0,1}, H3s={1,-1,0,-1,1,0,0,0,0}, H1={2};
		VV g2={{-2,1},{1,1},{0,-2}}, g3={{-2,1,1},{1,-2,0}}, g1={{-2},{0},{1}};
		// bound ranges: box, free, lower, fixed, shifted, contradictory
		std::vector<int> b2={0,1,2,4,5,8}, b2i={0,1,2,4,5,7,9}, bb={0,4,5};
		add( family( "B1",1,0,H1,VV(),g1,{0,1,2,3,4,5,6,7,8},{} ),T?4:3,NVAR,0 );
		add( thin( family( "B2a",2,0,H2a,VV(),g2,b2i,{} ),T?108:48 ),3,T?NVAR:6,0 );
		add( thin( family( "B2i",2,0,H2i,VV(),g2,b2i,{} ),T?108:48 ),3,T?NVAR:4,0 );
		add( thin( family( "B2s",2,0,H2s,VV(),g2,bb,{} ),27 ),3,2,0 );
		add( thin( family( "B2z",2,0,H2z,VV(),g2,bb,{} ),27 ),3,2,0 );
		add( thin( family( "B3",3,0,H3,VV(),g3,{0,1,2,4,5},{} ),T?120:50 ),3,4,0 );
		add( thin( family( "B3d4",3,0,H3,VV(),g3,{0,1,2,4,5},{} ),T?30:16 ),4,4,0 );
		VV A21={{1,1}}, A22={{1,1},{1,-1}}, A22d={{1,1},{2,2}}, A32={{1,1,1},{1,-1,0}}, A33={{1,1,1},{1,-1,0},{0,1,2}};
		add( thin( family( "Q21",2,1,H2a,A21,g2,{0,1,2,5},{0,4,5,2} ),T?96:40 ),3,T?NVAR:8,1 );
		add( thin( family( "Q22",2,2,H2a,A22,g2,{0,1,2,4},{0,9,5,3} ),T?100:48 ),3,T?NVAR:8,1 );
		add( thin( family( "Q22i",2,2,H2i,A22d,g2,{0,1,2},{0,4,5,3,7} ),T?100:40 ),3,4,1 );
		add( thin( family( "Q22s",2,2,H2s,A22,g2,bb,{0,4,5,3} ),T?60:30 ),3,2,1 );
		add( thin( family( "Q22z",2,2,H2z,A22,g2,bb,{0,4,5,3} ),T?60:30 ),3,2,1 );
		add( thin( family( "Q32",3,2,H3,A32,g3,{0,1,2,4},{0,8,5,3} ),T?110:50 ),3,4,1 );
		add( thin( family( "Q33",3,3,H3i,A33,g3,{0,1,2},{0,4,5} ),T?110:50 ),3,4,1 );
		add( thin( family( "Q32s",3,2,H3s,A32,g3,{0,5},{0,4,5,3} ),T?60:30 ),3,2,1 );
		add( thin( family( "Q32d4",3,2,H3,A32,g3,{0,1,2,4},{0,4,5,3} ),T?26:15 ),4,4,1 );
		addWritten( thin( family( "B1",1,0,H1,VV(),g1,{0,1,2,3,4},{} ),15 ),T?3:2,NVAR,0 );
		addWritten( thin( family( "B2a",2,0,H2a,VV(),g2,{0,1,2,3},{} ),T?40:16 ),2,T?NVAR:6,0 );
		addWritten( thin( family( "Q11",1,1,H1,{{1}},{{-2},{1}},{0,1,2,3},{0,1,2,3,5} ),T?40:20 ),T?3:2,T?6:NVAR,1 );
		addWritten( thin( family( "Q22",2,2,H2a,A22,g2,{0,1,2},{0,1,2,3,5} ),T?60:24 ),2,T?NVAR:6,1 );
		addWritten( thin( family( "Q22s",2,2,H2s,A22,g2,{0,5},{0,1,2,3} ),T?40:16 ),2,4,1 );
		addWritten( thin( family( "Q22z",2,2,H2z,A22,g2,{0,5},{0,1,2,3} ),T?40:16 ),2,4,1 );
		add( thin( family( "SQ22",2,2,H2a,A22,g2,{0,1,2,4},{0,4,5,3} ),T?50:24 ),3,4,2 );
	} );
}
