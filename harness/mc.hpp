// mc.hpp - small explicit enumeration engine shared by every harness.
//
// A harness registers one or more SECTIONS.  A section is a finite space of cases [0,count);
// run(i) builds case i, executes the real qpOASES code and evaluates the oracle.  The engine
// explores every index of every section exactly once on a pool of forked workers, so that a
// crash / sanitizer report / hang of one case is attributed to that case and the exploration
// continues behind it.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <atomic>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>

namespace mc
{
typedef uint64_t u64;
typedef int64_t  i64;

struct Section
{
	std::string name;
	u64 count;
	std::function<void(u64)> run;
	u64 chunk;
};

enum { MAXW = 64, MAXSEC = 256, MAXSTAT = 96, NSAMPLE = 6, KEYLEN = 6000, HBITS = 24 };

struct WorkerSlot
{
	volatile u64 section, index, end;
	volatile double started;      // wall time at which the current case began; 0 = idle
	volatile int lastSignal;
	char key[KEYLEN];
};

struct Shared
{
	std::atomic<u64> next[MAXSEC];
	std::atomic<u64> evals, states, transitions, traces, nontrivial, outcomeBits, nSamples, violations;
	std::atomic<u64> stat[MAXSTAT];
	WorkerSlot w[MAXW];
	char sample[NSAMPLE][1500];
	std::atomic<u64> hset[1u<<HBITS];  // open addressing set of outcome / state hashes
	std::atomic<u64> hcount;
};

extern Shared* S;
extern int   self;
extern bool  verbose;
extern bool  thorough;
extern double caseLimit;
extern u64   seed;
extern std::vector<std::string> statNames;
extern std::vector<Section> sections;
extern int   violFd;
extern std::string curFailures;

inline double now( ) { struct timespec t; clock_gettime( CLOCK_MONOTONIC,&t ); return (double)t.tv_sec + 1e-9*(double)t.tv_nsec; }

inline u64 hashBytes( const void* p, size_t n, u64 h = 1469598103934665603ull )
{
	const unsigned char* c = (const unsigned char*)p;
	for( size_t i=0; i<n; ++i ) { h ^= c[i]; h *= 1099511628211ull; h ^= h>>29; }
	return h;
}
inline u64 hashStr( const std::string& s ) { return hashBytes( s.data( ),s.size( ) ); }

// insert into global visited set; true iff new
inline bool seenNew( u64 h )
{
	if ( h == 0 ) h = 1;
	const u64 mask = (1ull<<HBITS)-1;
	u64 k = (h * 0x9E3779B97F4A7C15ull) >> (64-HBITS);
	for( u64 tries=0; tries<64; ++tries,k=(k+1)&mask )
	{
		u64 cur = S->hset[k].load( std::memory_order_relaxed );
		if ( cur == h ) return false;
		if ( cur == 0 )
		{
			u64 exp = 0;
			if ( S->hset[k].compare_exchange_strong( exp,h ) ) { S->hcount++; return true; }
			if ( exp == h ) return false;
		}
	}
	return false; // table locally full: treated as seen (the count is a lower bound)
}

inline int statId( const char* name )
{
	for( size_t i=0; i<statNames.size( ); ++i ) if ( statNames[i] == name ) return (int)i;
	return -1;
}
inline void registerStat( const char* name ) { if ( statId( name ) < 0 && statNames.size( ) < MAXSTAT ) statNames.push_back( name ); }
inline void stat( const char* name, u64 inc = 1 ) { int i = statId( name ); if ( i >= 0 ) S->stat[i] += inc; }

inline void evaluation( u64 n = 1 ) { S->evals += n; }
inline void transition( u64 n = 1 ) { S->transitions += n; }
inline void traceValidated( u64 n = 1 ) { S->traces += n; }

std::string fmt( const char* f, ... ) __attribute__((format(printf,1,2)));

// name the case being executed (shown in the replay; identifies it for known findings)
inline void key( const std::string& k )
{
	WorkerSlot& w = S->w[self];
	size_t n = std::min( k.size( ),(size_t)KEYLEN-1 );
	memcpy( w.key,k.data( ),n ); w.key[n] = 0;
}
// record an observed outcome: contributes to `distinct_nontrivial` when new and nontrivial
inline void outcome( const std::string& o, bool isNontrivial = true )
{
	if ( isNontrivial && seenNew( hashStr( o ) ) ) S->nontrivial++;
}
// a state of the explored system (hash), returns true if new
inline bool state( u64 h ) { bool b = seenNew( h ^ 0xABCDEF1234567ull ); if ( b ) S->states++; return b; }

inline void sample( const std::string& s )
{
	static const u64 after[NSAMPLE] = {0,5,50,1000,20000,300000};   // spread over the run
	u64 have = S->nSamples.load( );
	if ( have >= NSAMPLE || S->evals.load( ) < after[have] ) return;
	u64 i = S->nSamples++;
	if ( i < NSAMPLE ) { strncpy( S->sample[i],s.c_str( ),1499 ); S->sample[i][1499]=0; }
}

void fail( const std::string& cls, const std::string& detail );
void addSection( const std::string& name, u64 count, std::function<void(u64)> run, u64 chunk = 0 );

// mixed radix decoding
struct Dec
{
	u64 v;
	explicit Dec( u64 _v ) : v( _v ) { }
	int operator()( u64 radix ) { u64 r = v % radix; v /= radix; return (int)r; }
};

int main( int argc, char** argv, const char* property, const char* rule, std::function<void()> setup );
}
