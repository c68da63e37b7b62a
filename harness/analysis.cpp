// C24: diagnosis functions: KKT violation, simple status, sensitivity (variance-covariance), constraint normalisation.
#include "drv.hpp"
#include <qpOASES/extras/SolutionAnalysis.hpp>
static const char* RULE = "getKktViolation is compared with an independent evaluation for every combination of Hessian kind, x, y, bounds (finite, infinite, NULL) and working sets on a grid; a reported zero violation must mean optimality.  "
	"For every history of solver calls on families of QPs the SolutionAnalysis results (KKT violation, variance-covariance of solution) must equal dense linear algebra on the QP data and working set, the simple status must agree with the verdict, and the diagnosis must not change later results.  "
	"normaliseConstraints is executed on every small constraint matrix x bounds x norm type.";
static double rel( double a, double b ) { return fabs( a-b )/( 1+std::max( fabs( a ),fabs( b ) ) ); }

// independent evaluation; ws==0: multipliers decide which bound has to be active
static void kktRef( int n, int m, const double* H, bool ident, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, const double* x, const double* y, const double* wb, const double* wc, double& st, double& fe, double& cm )
{
	st=fe=cm=0;
	for( int i=0; i<n; ++i )
	{
		double r = ( g?g[i]:0 )-y[i]; if ( H ) for( int j=0; j<n; ++j ) r += H[i*n+j]*x[j]; else if ( ident ) r += x[i];
		if ( A ) for( int j=0; j<m; ++j ) r -= A[j*n+i]*y[n+j];
		st = std::max( st,fabs( r ) );
	}
	for( int i=0; i<n+m; ++i )
	{
		double v=0; if ( i<n ) v=x[i]; else if ( A ) for( int j=0; j<n; ++j ) v += A[(i-n)*n+j]*x[j];
		const double* L = i<n?lb:lbA; const double* U = i<n?ub:ubA; int k=i<n?i:i-n;
		double l = L?L[k]:-INF, u = U?U[k]:INF;
		fe = std::max( fe,std::max( l-v,v-u ) );
		const double* w = i<n?wb:wc;
		if ( w ) { if ( w[k]==-1 && L ) cm=std::max( cm,fabs( (v-l)*y[i] ) ); if ( w[k]==1 && U ) cm=std::max( cm,fabs( (v-u)*y[i] ) ); }
		else { if ( y[i]>0 ) cm=std::max( cm,fabs( (v-l)*y[i] ) ); if ( y[i]<0 ) cm=std::max( cm,fabs( (v-u)*y[i] ) ); }
	}
}
static bool close3( double a, double b, double c, double d, double e, double f ) { return rel( a,d )<1e-9 && rel( b,e )<1e-9 && rel( c,f )<1e-9; }

static bool solveLin( std::vector<double> M, std::vector<double> b, int n, std::vector<double>& x )
{
	std::vector<int> p( n );
	for( int k=0; k<n; ++k )
	{
		int q=k; for( int i=k; i<n; ++i ) if ( fabs( M[i*n+k] )>fabs( M[q*n+k] ) ) q=i;
		if ( fabs( M[q*n+k] )<1e-9 ) return false;
		for( int j=0; j<n; ++j ) std::swap( M[k*n+j],M[q*n+j] ); std::swap( b[k],b[q] );
		for( int i=0; i<n; ++i ) if ( i!=k ) { double f=M[i*n+k]/M[k*n+k]; for( int j=k; j<n; ++j ) M[i*n+j]-=f*M[k*n+j]; b[i]-=f*b[k]; }
	}
	x.resize( n ); for( int k=0; k<n; ++k ) x[k]=b[k]/M[k*n+k]; return true;
}
static void diagnoseCov( QProblemB&, const QP&, const Obs& ) { }
static void diagnoseCov( QProblem& p, const QP& q, const Obs& o )
{
	const int n=q.n,m=q.m,dim=2*n+m; if ( p.usingRegularisation( ) ) return;
	// derivative of (x,y) with respect to (g,b,bA) at fixed working set
	std::vector<int> act; for( int i=0; i<n+m; ++i ) if ( o.ws[i]!=0 ) act.push_back( i );
	int k=n+(int)act.size( ); std::vector<double> M( k*k,0.0 ),T( dim*dim,0.0 );
	for( int i=0; i<n; ++i ) for( int j=0; j<n; ++j ) M[i*k+j]=q.H[i*n+j];
	for( size_t a=0; a<act.size( ); ++a ) for( int j=0; j<n; ++j ) { double c = act[a]<n ? ( act[a]==j ) : q.A[(act[a]-n)*n+j]; M[(n+a)*k+j]=c; M[j*k+n+a]=-c; }
	for( int in=0; in<dim; ++in )
	{
		std::vector<double> b( k,0.0 ),s; if ( in<n ) b[in]=-1; else for( size_t a=0; a<act.size( ); ++a ) if ( act[a]==in-n ) b[n+a]=1;
		if ( !solveLin( M,b,k,s ) ) return;           // not unique: no promise
		for( int i=0; i<n; ++i ) T[i*dim+in]=s[i];
		for( size_t a=0; a<act.size( ); ++a ) T[(n+act[a])*dim+in]=s[n+a];
	}
	SolutionAnalysis sa;
	for( int kind=0; kind<3; ++kind )
	{
		std::vector<double> V( dim*dim,0.0 ),R( dim*dim,-7.0 ),E( dim*dim,0.0 );
		for( int i=0; i<dim; ++i ) for( int j=0; j<dim; ++j ) V[i*dim+j] = kind==0 ? ( i==j ) : kind==1 ? ( i==j ? i+1 : 0 ) : ( i==j ? 4.0 : 1.0/(1+i+j) );
		returnValue rv = sa.getVarianceCovariance( &p,V.data( ),R.data( ) );
		mc::evaluation( ); mc::transition( );
		if ( rv!=SUCCESSFUL_RETURN ) { mc::fail( "covariance-refused",mc::fmt( "getVarianceCovariance returned %d ",(int)rv )+o.str( n,m ) ); return; }
		std::vector<double> TV( dim*dim,0.0 );
		for( int i=0; i<dim; ++i ) for( int j=0; j<dim; ++j ) { double s=0; for( int l=0; l<dim; ++l ) s+=T[i*dim+l]*V[l*dim+j]; TV[i*dim+j]=s; }
		for( int i=0; i<dim; ++i ) for( int j=0; j<dim; ++j ) { double s=0; for( int l=0; l<dim; ++l ) s+=TV[i*dim+l]*T[j*dim+l]; E[i*dim+j]=s; }
		for( int i=0; i<dim*dim; ++i ) if ( rel( R[i],E[i] )>1e-7 ) { mc::fail( "covariance",mc::fmt( "input %d: entry (%d,%d) is %g, dense linear algebra gives %g ",kind,i/dim,i%dim,R[i],E[i] )+o.str( n,m ) ); return; }
	}
}
template<class P> static void diagnose( P& p, const QP& q, const Obs& o )
{
	int simple = (int)getSimpleStatus( o.rv );
	int want = o.rv==SUCCESSFUL_RETURN ? 0 : o.inf ? -2 : o.unb ? -3 : o.rv==RET_MAX_NWSR_REACHED ? 1 : -1;
	mc::evaluation( );
	if ( simple!=want ) mc::fail( "simple-status",mc::fmt( "simple status %d, expected %d: ",simple,want )+o.str( q.n,q.m ) );
	if ( !o.solved ) return;
	SolutionAnalysis sa; double st=-1,fe=-1,cm=-1, st2,fe2,cm2;
	double worst = sa.getKktViolation( &p,&st,&fe,&cm ), w2 = sa.getKktViolation( &p );
	kktRef( q.n,q.m,q.H,false,q.g,q.m?q.A:0,q.lb,q.ub,q.lbA,q.ubA,o.x,o.y,o.ws,o.ws+q.n,st2,fe2,cm2 );
	mc::evaluation( 2 );
	// the solver reports against its own copies of the data: round-off of the homotopy
	if ( fabs( st-st2 )>1e-6 || fabs( fe-fe2 )>1e-6 || fabs( cm-cm2 )>1e-6*( 1+fabs( cm ) ) ) mc::fail( "solver-kkt",mc::fmt( "reported stat %g feas %g cmpl %g, actual %g %g %g ",st,fe,cm,st2,fe2,cm2 )+o.str( q.n,q.m ) );
	if ( worst!=std::max( st,std::max( fe,cm ) ) || w2!=worst ) mc::fail( "solver-kkt-max",mc::fmt( "maximum %g / %g of %g %g %g",worst,w2,st,fe,cm ) );
	diagnoseCov( p,q,o );
}
template<class P> static P* mk( int n, int m, int k ) { return new P( n,m,k==2?HST_IDENTITY:HST_UNKNOWN ); }
template<> QProblemB* mk<QProblemB>( int n, int, int ) { return new QProblemB( n ); }
template<class P> static returnValue startUp( P& p, const QP& q, int_t& n, int ) { return dInit( p,q,n ); }
// kind 1: NULL instead of an empty constraint matrix, 2: additionally identity Hessian given by its type only
template<> returnValue startUp<QProblem>( QProblem& p, const QP& q, int_t& n, int kind ) { return kind ? p.init( kind==2?(const double*)0:q.H,q.g,q.m?q.A:(const double*)0,q.lb,q.ub,q.m?q.lbA:(const double*)0,q.m?q.ubA:(const double*)0,n ) : dInit( p,q,n ); }
template<class P> static void history( const Fam& f, int var, int i0, int i1, int cut, int kind = 0 )
{
	std::string vn; Options o = variant( var,&vn ); int S=(int)f.d.size( ); (void)S;
	P* p = mk<P>( f.n,f.m,kind ); P* r = mk<P>( f.n,f.m,kind ); p->setOptions( o ); r->setOptions( o );
	for( int k=0; k<3; ++k )
	{
		const QP& q = f.d[k==0?i0:k==1?i1:i0]; int_t n1 = ( cut && k==1 ) ? 1 : 100,n2=n1; returnValue a,b;
		if ( k==0 ) { a=startUp( *p,q,n1,kind ); b=startUp( *r,q,n2,kind ); } else { a=dHot( *p,q,n1 ); b=dHot( *r,q,n2 ); }
		mc::transition( 2 );
		Obs x=observe( *p,f.n,f.m,a,n1 ), y=observe( *r,f.n,f.m,b,n2 ); std::string why;
		mc::state( mc::hashBytes( &x,sizeof(x) ) );
		if ( !sameBits( x,y,f.n,f.m,&why ) ) { mc::fail( "diagnosis-disturbs","results differ from an object never analysed: " + why ); break; }
		diagnose( *p,q,x );
		mc::outcome( x.str( f.n,f.m,true ) );
	}
	delete p; delete r;
}
static std::vector<Fam> F;
static void setup( )
{
	// 1. the plain KKT function
	static std::vector<std::vector<double> > HS = { {2,1,1,2},{0,0,0,0},{1,0,0,1},{1,-1,-1,1} };
	static const double GV[] = {0,1,-2}, XV[] = {-1,0,0.5,2}, YV[] = {-1,0,2};
	static const Range RG[] = {{-1,2},{-INF,INF},{0,INF},{-INF,0.5},{0.5,0.5}};
	mc::addSection( "kkt",(mc::u64)6*9*16*9*25*4*3,[]( mc::u64 i ) {
		mc::Dec d( i ); int hk=d( 6 ); double g[2]={GV[d( 3 )],GV[d( 3 )]}, x[2]={XV[d( 4 )],XV[d( 4 )]}, y[3]={YV[d( 3 )],YV[d( 3 )],0}; Range a=RG[d( 5 )],b=RG[d( 5 )]; int nm=d( 4 ),wk=d( 3 );
		double lb[2]={a.l,b.l},ub[2]={a.u,b.u}; const double* H = hk<4 ? HS[hk].data( ) : 0; bool id = hk==5;
		const double* L = nm&1?0:lb; const double* U = nm&2?0:ub;
		for( int w=0; w<( wk==2?9:1 ); ++w )
		{
			double ws[2]={(double)(w%3-1),(double)(w/3-1)}; if ( wk==1 ) { ws[0]=y[0]>0?-1:y[0]<0?1:0; ws[1]=y[1]>0?-1:y[1]<0?1:0; }
			mc::key( mc::fmt( "kkt H%d null%d ws%d,%d g=",hk,nm,wk,w )+vec( g,2 )+" x="+vec( x,2 )+" y="+vec( y,2 )+" lb="+vec( lb,2 )+" ub="+vec( ub,2 ) );
			double s,f,c,s2,f2,c2;
			returnValue rv = getKktViolation( 2,H,g,L,U,x,y,s,f,c,wk?ws:0,id?BT_TRUE:BT_FALSE );
			kktRef( 2,0,H,id,g,0,L,U,0,0,x,y,wk?ws:0,0,s2,f2,c2 ); mc::evaluation( ); mc::transition( );
			if ( rv!=SUCCESSFUL_RETURN || !close3( s,f,c,s2,f2,c2 ) ) mc::fail( "kkt",mc::fmt( "reported %d: stat %g feas %g cmpl %g, actual %g %g %g",(int)rv,s,f,c,s2,f2,c2 ) );
			mc::outcome( mc::fmt( "%g %g %g",s,f,c ) );
		}
	} );
	mc::addSection( "kktC",(mc::u64)3*3*16*27*9*5*4*2,[]( mc::u64 i ) {
		mc::Dec d( i ); int hk=d( 3 ); double g[2]={1,GV[d( 3 )]}, x[2]={XV[d( 4 )],XV[d( 4 )]}, y[3]={YV[d( 3 )],YV[d( 3 )],YV[d( 3 )]}; double A[2]={(double)d( 3 )-1,2.0*d( 3 )-2}; Range a=RG[d( 5 )]; int nm=d( 4 ),wk=d( 2 );
		double lb[2]={-1,0},ub[2]={2,2},lA[1]={a.l},uA[1]={a.u}; const double* H = HS[hk].data( ); const double* L = nm&1?0:lA; const double* U = nm&2?0:uA;
		for( int w=0; w<(wk?3:1); ++w )
		{
			double wb[2]={y[0]>0?-1.:y[0]<0?1.:0.,y[1]>0?-1.:y[1]<0?1.:0.},wc[1]={(double)w-1};
			mc::key( mc::fmt( "kktC H%d null%d ws%d,%d g=",hk,nm,wk,w )+vec( g,2 )+" x="+vec( x,2 )+" y="+vec( y,3 )+" A="+vec( A,2 )+" lbA="+vec( lA,1 )+" ubA="+vec( uA,1 ) );
			double s,f,c,s2,f2,c2;
			returnValue rv = getKktViolation( 2,1,H,g,A,lb,ub,L,U,x,y,s,f,c,wk?wb:0,wk?wc:0 );
			kktRef( 2,1,H,false,g,A,lb,ub,L,U,x,y,wk?wb:0,wk?wc:0,s2,f2,c2 ); mc::evaluation( ); mc::transition( );
			if ( rv!=SUCCESSFUL_RETURN || !close3( s,f,c,s2,f2,c2 ) ) mc::fail( "kkt",mc::fmt( "reported %d: stat %g feas %g cmpl %g, actual %g %g %g",(int)rv,s,f,c,s2,f2,c2 ) );
			mc::outcome( mc::fmt( "%g %g %g",s,f,c ) );
		}
	} );
	// 2. normalisation
	static const double AV[] = {0,1,-2,3};
	static const double LV[] = {-INF,-3,0,1,-2*INF}, UV[] = {INF,3,1,0,3*INF};
	mc::addSection( "normalise",(mc::u64)64*16*25*25*2*4,[]( mc::u64 i ) {
		mc::Dec d( i ); int n=3,m=2; double A[6],B[6]; for( int k=0; k<3; ++k ) A[k]=AV[d( 4 )]; A[3]=0; for( int k=4; k<6; ++k ) A[k]=AV[d( 4 )];
		double l[2],u[2],l0[2],u0[2]; l[0]=LV[d( 5 )]; u[0]=UV[d( 5 )]; l[1]=LV[d( 5 )]; u[1]=UV[d( 5 )]; int type=1+d( 2 ),nm=d( 4 ); memcpy( B,A,sizeof(A) ); memcpy( l0,l,sizeof(l) ); memcpy( u0,u,sizeof(u) );
		mc::key( mc::fmt( "normalise type%d null%d A=",type,nm )+vec( A,6 )+mc::fmt( " lbA=%g,%g ubA=%g,%g",l[0],l[1],u[0],u[1] ) );
		returnValue rv = normaliseConstraints( n,m,A,nm&1?0:l,nm&2?0:u,type ); mc::evaluation( ); mc::transition( );
		if ( rv!=SUCCESSFUL_RETURN ) { mc::fail( "normalise",mc::fmt( "returned %d",(int)rv ) ); return; }
		for( int r=0; r<m; ++r )
		{
			double nb=0,na=0; for( int j=0; j<n; ++j ) { nb += type==1?fabs( B[r*n+j] ):B[r*n+j]*B[r*n+j]; na += type==1?fabs( A[r*n+j] ):A[r*n+j]*A[r*n+j]; } if ( type==2 ) { nb=sqrt( nb ); na=sqrt( na ); }
			if ( fabs( na-1 )>1e-12 ) mc::fail( "normalise-norm",mc::fmt( "row %d has norm %g",r,na ) );
			for( int side=0; side<2; ++side )
			{
				if ( nm>>side&1 ) continue; double was = side?u0[r]:l0[r], is = side?u[r]:l[r]; bool infWas = side?was>=INF:was<=-INF, infIs = side?is>=INF:is<=-INF;
				if ( nb==0 ) { if ( !infIs ) mc::fail( "normalise-zero",mc::fmt( "row %d: zero row still restricts: %g",r,is ) ); continue; }
				if ( infWas != infIs ) mc::fail( "normalise-infinite",mc::fmt( "row %d: bound %g became %g",r,was,is ) );
				else if ( !infWas && rel( is,was/nb )>1e-12 ) mc::fail( "normalise-bound",mc::fmt( "row %d: bound %g became %g, norm %g",r,was,is,nb ) );
			}
			if ( nb>0 ) for( int j=0; j<n; ++j ) if ( rel( A[r*n+j],B[r*n+j]/nb )>1e-12 ) mc::fail( "normalise-row",mc::fmt( "entry (%d,%d) is %g",r,j,A[r*n+j] ) );
		}
		if ( nm&1 ) if ( memcmp( l,l0,sizeof(l) ) ) mc::fail( "normalise-touch","lbA touched" );
		mc::outcome( vec( A,6 )+vec( l,2 )+vec( u,2 ) );
	} );
	mc::addSection( "normaliseArgs",5,[]( mc::u64 i ) {
		double A[4]={1,2,3,4},l[2]={0,0},u[2]={1,1}; mc::key( mc::fmt( "normaliseArgs %d",(int)i ) ); mc::evaluation( );
		returnValue rv = i==0 ? normaliseConstraints( 0,2,A,l,u ) : i==1 ? normaliseConstraints( 2,0,A,l,u ) : i==2 ? normaliseConstraints( 2,2,0,l,u ) : i==3 ? normaliseConstraints( -1,2,A,l,u ) : normaliseConstraints( 2,-2,A,l,u );
		if ( rv!=RET_INVALID_ARGUMENTS ) mc::fail( "normalise-args",mc::fmt( "returned %d",(int)rv ) ); mc::outcome( mc::fmt( "args%d",(int)i ) );
	} );
	// 3. simple status of every return value
	mc::addSection( "simple",1,[]( mc::u64 ) {
		for( int r=-1; r<=(int)RET_SIMPLE_STATUS_M3; ++r )
		{
			int want = r==SUCCESSFUL_RETURN ? 0 : r==RET_MAX_NWSR_REACHED ? 1 : ( r==RET_INIT_FAILED_INFEASIBILITY || r==RET_HOTSTART_STOPPED_INFEASIBILITY ) ? -2 : ( r==RET_INIT_FAILED_UNBOUNDEDNESS || r==RET_HOTSTART_STOPPED_UNBOUNDEDNESS ) ? -3 : -1;
			if ( r==RET_QP_INFEASIBLE || r==RET_QP_UNBOUNDED ) continue;   // judged with the solver below
			mc::key( mc::fmt( "simple status of %d",r ) ); mc::evaluation( ); mc::outcome( mc::fmt( "%d %d",r,want ) );
			if ( getSimpleStatus( (returnValue)r )!=want ) mc::fail( "simple",mc::fmt( "%d, expected %d",(int)getSimpleStatus( (returnValue)r ),want ) );
		}
	} );
	// 4. solver objects
	F.push_back( thin( family( "B2",2,0,{2,1,1,2},{},vectors( 2,{-3,0,2} ),{0,1,2,4,7},{} ),mc::thorough?100:30 ) );
	F.push_back( thin( family( "B2I",2,0,{1,0,0,1},{},vectors( 2,{-3,0,2} ),{0,1,2,4},{} ),mc::thorough?60:20 ) );
	F.push_back( thin( family( "Q21",2,1,{2,1,1,2},{{1,1}},vectors( 2,{-3,1} ),{0,1,2,3,4,7},{0,1,4,5} ),mc::thorough?120:40 ) );
	F.push_back( thin( family( "Q22",2,2,{2,-1,-1,2},{{1,1},{1,-2}},vectors( 2,{-3,1} ),{0,1,3,4},{0,2,4,5} ),mc::thorough?120:40 ) );
	F.push_back( thin( family( "Q32",3,2,{2,1,0,1,2,1,0,1,2},{{1,1,1},{1,-1,0}},vectors( 3,{-3,1} ),{0,1,4},{0,2,5} ),mc::thorough?100:30 ) );
	F.push_back( thin( family( "LP2",2,1,{0,0,0,0},{{1,1}},vectors( 2,{-1,1} ),{0,5},{0,2,5} ),mc::thorough?60:20 ) );
	F.push_back( thin( family( "Q20",2,0,{2,1,1,2},{},vectors( 2,{-3,1} ),{0,1,2,4},{} ),mc::thorough?60:20 ) );
	const int nv = mc::thorough ? 14 : 4;
	for( size_t k=0; k<F.size( ); ++k )
	{
		mc::u64 S = F[k].d.size( );
		mc::addSection( F[k].name,S*S*nv*2*5,[=]( mc::u64 i ) {
			mc::Dec d( i ); int a=d( S ),b=d( S ),v=d( nv ),cut=d( 2 ),cls=d( 5 ); const Fam& f=F[k];
			if ( cls==0 && f.m ) return; if ( cls==3 && f.m ) return; if ( cls==4 && f.name!="B2I" ) return;
			if ( v>=2 && f.name=="LP2" ) v=v%2;
			std::string vn; variant( v,&vn );
			mc::key( mc::fmt( "%s %s cls%d cut%d %d %d",f.name.c_str( ),vn.c_str( ),cls,cut,a,b ) );
			if ( cls==0 ) history<QProblemB>( f,v,a,b,cut ); else if ( cls==1 ) history<QProblem>( f,v,a,b,cut ); else if ( cls>2 ) history<QProblem>( f,v,a,b,cut,cls-2 ); else history<SQProblem>( f,v,a,b,cut );
		} );
	}
	mc::addSection( "nullqp",3,[]( mc::u64 i ) {
		mc::key( mc::fmt( "null object %d",(int)i ) ); SolutionAnalysis sa; mc::evaluation( ); mc::outcome( mc::fmt( "null%d",(int)i ) );
		double v = i==0 ? sa.getKktViolation( (QProblemB*)0 ) : i==1 ? sa.getKktViolation( (QProblem*)0 ) : sa.getKktViolation( (SQProblem*)0 );
		if ( v<INF ) mc::fail( "null-kkt",mc::fmt( "%g",v ) );
	} );
}
int main( int argc, char** argv ) { return mc::main( argc,argv,"C24",RULE,setup ); }
