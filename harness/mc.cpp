#include "mc.hpp"
#include <sys/stat.h>
#include <sys/prctl.h>
namespace mc
{
Shared* S = 0;
int self = 0;
bool verbose = false, thorough = false;
u64 seed = 1;
std::vector<std::string> statNames;
std::vector<Section> sections;
int violFd = -1;
static int nWorkers = 8;
double caseLimit = 20.0; static double caseLimitAlone = 90.0;
static bool replaying = false;
static int replayFailures = 0;
static std::string prop, replayDir = "replays", evidenceFile, knownFile, onlySection;
static volatile u64 curSec = 0, curIdx = 0;

std::string fmt( const char* f, ... )
{
	char buf[8192];
	va_list ap; va_start( ap,f ); vsnprintf( buf,sizeof(buf),f,ap ); va_end( ap );
	return buf;
}

static std::string oneLine( std::string s ) { for( auto& c : s ) if ( c=='\n' || c=='\t' || c=='\r' ) c=' '; return s; }

void fail( const std::string& cls, const std::string& detail )
{
	if ( replaying )
	{
		++replayFailures;
		printf( "REPLAY FAILURE class=%s\n  case: %s\n  detail: %s\n",cls.c_str( ),S->w[self].key,detail.c_str( ) );
		fflush( stdout );
		return;
	}
	S->violations++;
	if ( S->violations > 20000 ) return;
	std::string l = fmt( "%s\t%llu\t%s\t",sections[curSec].name.c_str( ),(unsigned long long)curIdx,cls.c_str( ) )
		+ oneLine( S->w[self].key ) + "\t" + oneLine( detail ) + "\n";
	ssize_t r = write( violFd,l.data( ),l.size( ) ); (void)r;
}

void addSection( const std::string& name, u64 count, std::function<void(u64)> run, u64 chunk )
{
	Section s; s.name=name; s.count=count; s.run=run;
	if ( chunk == 0 ) { chunk = count/512; if ( chunk < 1 ) chunk = 1; if ( chunk > 2000 ) chunk = 2000; }
	s.chunk = chunk;
	sections.push_back( s );
}

static void runCase( u64 s, u64 i )
{
	curSec = s; curIdx = i;
	WorkerSlot& w = S->w[self];
	w.section = s; w.index = i; w.key[0] = 0;
	w.started = now( );
	sections[s].run( i );
	w.started = 0;
}

static void workerLoop( u64 s, u64 from, u64 to )
{
	if ( from < to ) for( u64 i=from; i<to; ++i ) runCase( s,i );
	for( ; s<sections.size( ); ++s )
		for( ;; )
		{
			u64 b = S->next[s].fetch_add( sections[s].chunk );
			if ( b >= sections[s].count ) break;
			u64 e = std::min( b+sections[s].chunk,sections[s].count );
			S->w[self].end = e;
			for( u64 i=b; i<e; ++i ) runCase( s,i );
		}
}

static pid_t spawn( int w, u64 s, u64 from, u64 to )
{
	fflush( stdout ); fflush( stderr );
	pid_t p = fork( );
	if ( p == 0 )
	{
		prctl( PR_SET_PDEATHSIG,SIGKILL );
		if ( !getenv( "MC_OUT" ) ) { int nul = open( "/dev/null",O_WRONLY ); if ( nul>=0 ) { dup2( nul,1 ); dup2( nul,2 ); close( nul ); } }   // the library prints error messages
		self = w;
		S->w[w].end = to;
		workerLoop( s,from,to );
		S->w[w].started = 0;
		fflush( stdout );
		_exit( 0 );
	}
	return p;
}

static std::string jesc( const std::string& s )
{
	std::string o;
	for( unsigned char c : s )
	{
		if ( c=='"' || c=='\\' ) { o+='\\'; o+=(char)c; }
		else if ( c=='\n' ) o+="\\n";
		else if ( c<0x20 || c>=0x7f ) o+=fmt( "\\u%04x",c );
		else o+=(char)c;
	}
	return o;
}

struct Viol { std::string sec; u64 idx; std::string cls,key,detail; };

static std::vector<std::string> splitTab( const std::string& l )
{
	std::vector<std::string> r; std::string cur;
	for( char c : l ) { if ( c=='\t' ) { r.push_back( cur ); cur.clear( ); } else cur+=c; }
	r.push_back( cur );
	return r;
}

// run one case alone in a fresh process; returns 0 clean, 1 failed, 2 hang
static int runAlone( u64 s, u64 i, double limit, int* sig )
{
	fflush( stdout );
	pid_t p = fork( );
	if ( p == 0 )
	{
		prctl( PR_SET_PDEATHSIG,SIGKILL );
		self = MAXW-1;
		replaying = true; replayFailures = 0;
		int dn = open( "/dev/null",O_WRONLY ); if ( !verbose ) { dup2( dn,1 ); dup2( dn,2 ); }
		runCase( s,i );
		fflush( stdout );
		_exit( replayFailures ? 3 : 0 );
	}
	double t0 = now( ); int st = 0;
	for( ;; )
	{
		pid_t r = waitpid( p,&st,WNOHANG );
		if ( r == p ) break;
		if ( now( )-t0 > limit ) { kill( p,SIGKILL ); waitpid( p,&st,0 ); return 2; }
		usleep( 2000 );
	}
	if ( WIFSIGNALED( st ) ) { if ( sig ) *sig = WTERMSIG( st ); return 1; }
	if ( WEXITSTATUS( st ) != 0 ) { if ( sig ) *sig = 1000+WEXITSTATUS( st ); return 1; }
	return 0;
}

int main( int argc, char** argv, const char* property, const char* rule, std::function<void()> setup )
{
	prop = property;
	double t0 = now( );
	std::string replayFile, scratch, level = "model_checking";
	u64 oneIdx = 0; bool haveOne = false;
	if ( const char* e = getenv( "VERIF_TIER" ) ) thorough = strcmp( e,"thorough" )==0;
	if ( const char* e = getenv( "VERIF_SEED" ) ) seed = strtoull( e,0,10 );
	if ( const char* e = getenv( "MC_WORKERS" ) ) nWorkers = atoi( e );
	if ( const char* e = getenv( "MC_LEVEL" ) ) level = e;
	for( int i=1; i<argc; ++i )
	{
		std::string a = argv[i];
		if ( a=="--thorough" ) thorough = true;
		else if ( a=="--evidence" ) evidenceFile = argv[++i];
		else if ( a=="--known" ) knownFile = argv[++i];
		else if ( a=="--replays" ) replayDir = argv[++i];
		else if ( a=="--section" ) onlySection = argv[++i];
		else if ( a=="--index" ) { oneIdx = strtoull( argv[++i],0,10 ); haveOne = true; }
		else if ( a=="--replay" ) replayFile = argv[++i];
		else if ( a=="--verbose" ) verbose = true;
	}
	S = (Shared*)mmap( 0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0 );
	if ( S == MAP_FAILED ) { perror( "mmap" ); return 2; }
	setup( );
	if ( caseLimit > caseLimitAlone ) caseLimitAlone = caseLimit;
	if ( sections.size( ) > MAXSEC ) { fprintf( stderr,"too many sections\n" ); return 2; }

	if ( !replayFile.empty( ) )
	{
		FILE* f = fopen( replayFile.c_str( ),"r" ); if ( !f ) { perror( replayFile.c_str( ) ); return 2; }
		char line[16000];
		while( fgets( line,sizeof(line),f ) )
		{
			char nm[256]; unsigned long long ix;
			if ( sscanf( line,"section: %255s",nm )==1 ) onlySection = nm;
			if ( sscanf( line,"index: %llu",&ix )==1 ) { oneIdx = ix; haveOne = true; }
			if ( strncmp( line,"tier: thorough",14 )==0 && !thorough )
			{
				thorough = true; sections.clear( ); setup( );
			}
		}
		fclose( f );
	}
	if ( haveOne )
	{
		for( size_t s=0; s<sections.size( ); ++s ) if ( sections[s].name == onlySection )
		{
			verbose = true; replaying = true; self = 0;
			runCase( s,oneIdx );
			printf( "case: %s\n%s\n",S->w[0].key,replayFailures ? "REPLAY: violation reproduced" : "REPLAY: no violation" );
			return replayFailures ? 1 : 0;
		}
		fprintf( stderr,"no section '%s'\n",onlySection.c_str( ) );
		return 2;
	}

	// known findings
	std::set<std::string> known; // "cls\tkey"
	if ( !knownFile.empty( ) )
	{
		FILE* f = fopen( knownFile.c_str( ),"r" );
		char line[16000];
		if ( f ) while( fgets( line,sizeof(line),f ) )
		{
			std::string l = line; while( !l.empty( ) && ( l.back( )=='\n' || l.back( )=='\r' ) ) l.pop_back( );
			std::string pre = "property=" + prop + " class=";
			if ( l.compare( 0,pre.size( ),pre ) != 0 ) continue;
			size_t k = l.find( " case=" ); if ( k == std::string::npos ) continue;
			size_t e = l.find( " :: ",k ); if ( e == std::string::npos ) e = l.size( );
			known.insert( l.substr( pre.size( ),k-pre.size( ) ) + "\t" + l.substr( k+6,e-k-6 ) );
		}
		if ( f ) fclose( f );
	}

	char violPath[] = "/tmp/mcviolXXXXXX";
	int tf = mkstemp( violPath ); close( tf );
	violFd = open( violPath,O_WRONLY|O_APPEND );
	if ( !onlySection.empty( ) )
		for( auto& s : sections ) if ( s.name.find( onlySection )==std::string::npos ) s.count = 0;

	std::vector<pid_t> pid( nWorkers );
	int live = 0;
	for( int w=0; w<nWorkers; ++w ) { pid[w] = spawn( w,0,0,0 ); ++live; }
	u64 crashes = 0, hangs = 0;
	bool abandon = false;
	while( live > 0 )
	{
		int st = 0;
		pid_t r = waitpid( -1,&st,WNOHANG );
		if ( r > 0 )
		{
			int w = -1;
			for( int k=0; k<nWorkers; ++k ) if ( pid[k]==r ) w = k;
			if ( w < 0 ) continue;
			bool bad = WIFSIGNALED( st ) || WEXITSTATUS( st )!=0;
			if ( !bad ) { pid[w] = -1; --live; continue; }
			u64 s = S->w[w].section, i = S->w[w].index, e = S->w[w].end;
			int sg = WIFSIGNALED( st ) ? WTERMSIG( st ) : 1000+WEXITSTATUS( st );
			curSec = s; curIdx = i; self = w;
			if ( S->w[w].lastSignal == -9 )  // killed by the watchdog
			{
				S->w[w].lastSignal = 0;
				int sig = 0; int rr = runAlone( s,i,caseLimitAlone,&sig );
				if ( rr == 2 ) { ++hangs; fail( "hang",fmt( "no result within %.0f s when run alone",caseLimitAlone ) ); }
				else if ( rr == 1 ) fail( "crash",fmt( "abnormal end (code %d) when rerun alone after time-out",sig ) );
			}
			else
			{
				++crashes;
				fail( "crash",fmt( "process ended abnormally: %s %d (sanitizer report, signal or exit inside the library)",sg<1000?"signal":"exit",sg<1000?sg:sg-1000 ) );
			}
			self = 0;
			if ( crashes + hangs*20 > 400 ) { abandon = true; pid[w]=-1; --live; continue; }
			S->w[w].started = 0;
			pid[w] = spawn( w,s,i+1,e );
			continue;
		}
		double t = now( );
		for( int w=0; w<nWorkers; ++w )
			if ( pid[w] > 0 && S->w[w].started > 0 && t - S->w[w].started > caseLimit && S->w[w].lastSignal != -9 )
			{
				S->w[w].lastSignal = -9;
				kill( pid[w],SIGKILL );
			}
		usleep( 3000 );
	}
	close( violFd );

	// collect violations
	std::vector<Viol> viols;
	{
		FILE* f = fopen( violPath,"r" );
		char* line = 0; size_t cap = 0; ssize_t n;
		while( f && ( n = getline( &line,&cap,f ) ) > 0 )
		{
			if ( line[n-1]=='\n' ) line[n-1]=0;
			auto v = splitTab( line );
			if ( v.size( ) < 5 ) continue;
			Viol x; x.sec=v[0]; x.idx=strtoull( v[1].c_str( ),0,10 ); x.cls=v[2]; x.key=v[3]; x.detail=v[4];
			viols.push_back( x );
		}
		free( line ); if ( f ) fclose( f );
		unlink( violPath );
	}
	std::sort( viols.begin( ),viols.end( ),[]( const Viol& a,const Viol& b ) {
		if ( a.sec!=b.sec ) { size_t x=0,y=0; for( size_t k=0;k<sections.size( );++k ) { if ( sections[k].name==a.sec ) x=k; if ( sections[k].name==b.sec ) y=k; } return x<y; }
		if ( a.idx!=b.idx ) return a.idx<b.idx; return a.cls<b.cls; } );

	u64 nKnown = 0, nNew = 0; std::map<std::string,int> perClass;
	std::vector<Viol> report;
	std::set<std::string> knownSeen;
	for( auto& v : viols )
	{
		std::string id = v.cls + "\t" + v.key;
		if ( known.count( id ) )
		{
			++nKnown;
			if ( knownSeen.insert( id ).second )
				printf( "KNOWN-FINDING: property=%s class=%s case=%s\n",prop.c_str( ),v.cls.c_str( ),v.key.c_str( ) );
			continue;
		}
		++nNew;
		int& pc = perClass[v.sec+"/"+v.cls];
		if ( pc < (getenv("MC_PER")?atoi(getenv("MC_PER")):3) && report.size( ) < (getenv("MC_PER")?400:24) ) report.push_back( v );
		++pc;
	}
	mkdir( replayDir.c_str( ),0777 );
	int k = 0;
	for( auto& v : report )
	{
		std::string path = fmt( "%s/%s_%d.txt",replayDir.c_str( ),prop.c_str( ),k++ );
		u64 sidx = 0; for( size_t s=0; s<sections.size( ); ++s ) if ( sections[s].name==v.sec ) sidx = s;
		int sig = 0;
		int again = ( v.cls=="hang" ) ? 2 : runAlone( sidx,v.idx,caseLimitAlone,&sig );
		FILE* f = fopen( path.c_str( ),"w" );
		if ( f )
		{
			fprintf( f,"property: %s\ntier: %s\nsection: %s\nindex: %llu\nclass: %s\ncase: %s\ndetail: %s\nreproduced_alone: %s\n",
				prop.c_str( ),thorough?"thorough":"quick",v.sec.c_str( ),(unsigned long long)v.idx,v.cls.c_str( ),v.key.c_str( ),v.detail.c_str( ),again?"yes":"no" );
			fclose( f );
		}
		printf( "  [%s#%llu] class=%s case={%s}\n     %s%s\n",v.sec.c_str( ),(unsigned long long)v.idx,v.cls.c_str( ),v.key.c_str( ),v.detail.c_str( ),again?"":" (not reproduced in isolation)" );
		printf( "VIOLATION property=%s replay=%s\n",prop.c_str( ),path.c_str( ) );
	}
	for( auto& p : perClass ) printf( "  total %-40s %d\n",p.first.c_str( ),p.second );

	u64 total = 0; for( auto& s : sections ) total += s.count;
	double wall = now( )-t0;
	if ( !evidenceFile.empty( ) )
	{
		FILE* f = fopen( evidenceFile.c_str( ),"w" );
		if ( !f ) { perror( evidenceFile.c_str( ) ); return 2; }
		fprintf( f,"{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n",
			prop.c_str( ),thorough?"thorough":"quick",(unsigned long long)seed,level.c_str( ) );
		fprintf( f,"  \"exhaustive\": %s,\n",abandon?"false":"true" );
		fprintf( f,"  \"cases_enumerated\": %llu,\n",(unsigned long long)total );
		u64 distinct = S->states.load( )+S->nontrivial.load( );
		if ( level == "model_checking" )
			fprintf( f,"  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",(unsigned long long)distinct,(unsigned long long)S->transitions.load( ),(unsigned long long)S->traces.load( ) );
		else
			fprintf( f,"  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n",(unsigned long long)S->evals.load( ),(unsigned long long)distinct );
		fprintf( f,"  \"rule\": \"%s\",\n",jesc( rule ).c_str( ) );
		fprintf( f,"  \"sections\": {" );
		for( size_t s=0; s<sections.size( ); ++s ) fprintf( f,"%s\"%s\": %llu",s?", ":"",jesc( sections[s].name ).c_str( ),(unsigned long long)sections[s].count );
		fprintf( f,"},\n  \"counters\": {" );
		for( size_t s=0; s<statNames.size( ); ++s ) fprintf( f,"%s\"%s\": %llu",s?", ":"",jesc( statNames[s] ).c_str( ),(unsigned long long)S->stat[s].load( ) );
		fprintf( f,"},\n  \"samples\": [" );
		u64 ns = std::min<u64>( S->nSamples.load( ),NSAMPLE );
		for( u64 s=0; s<ns; ++s ) fprintf( f,"%s\n   \"%s\"",s?",":"",jesc( S->sample[s] ).c_str( ) );
		fprintf( f,"]\n },\n \"assumptions\": [],\n \"known_findings_seen\": %llu,\n \"violations\": %llu,\n \"wall_s\": %.2f\n}\n",(unsigned long long)nKnown,(unsigned long long)nNew,wall );
		fclose( f );
	}
	printf( "%s: %llu cases, %llu evaluations, %llu transitions, %llu distinct states/outcomes, %llu traces validated, %llu violations, %llu known, %.1f s\n",
		prop.c_str( ),(unsigned long long)total,(unsigned long long)S->evals.load( ),(unsigned long long)S->transitions.load( ),
		(unsigned long long)( S->states.load( )+S->nontrivial.load( ) ),(unsigned long long)S->traces.load( ),(unsigned long long)nNew,(unsigned long long)nKnown,wall );
	for( size_t s=0; s<statNames.size( ); ++s ) printf( "    %-40s %llu\n",statNames[s].c_str( ),(unsigned long long)S->stat[s].load( ) );
	return nNew ? 1 : 0;
}
}
