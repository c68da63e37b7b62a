// worlds.hpp - small worlds (fixed matrices + a second pair of matrices, five data vectors each) used by history checks
#pragma once
#include "drv.hpp"
struct World { std::string name; int n,m; std::vector<QP> d; };   // d: 0 base, 1 other matrices, 2,3 other vectors, 4 infeasible
inline QP mkWorldQP( int n, int m, std::vector<double> H, std::vector<double> g, std::vector<double> A, std::vector<int> b, std::vector<int> c )
{
	QP q; q.n=n; q.m=m; for( int i=0; i<n*n; ++i ) q.H[i]=H[i]; for( int i=0; i<n; ++i ) { q.g[i]=g[i]; q.lb[i]=RANGES[b[i]].l; q.ub[i]=RANGES[b[i]].u; }
	for( int i=0; i<n*m; ++i ) q.A[i]=A[i]; for( int i=0; i<m; ++i ) { q.lbA[i]=RANGES[c[i]].l; q.ubA[i]=RANGES[c[i]].u; } return q;
}
inline std::vector<World> worlds( )
{
	std::vector<World> W;
	auto world = [&]( const char* nm, int n, int m, std::vector<double> H, std::vector<double> A, std::vector<double> H1, std::vector<double> A1, std::vector<double> g0, std::vector<double> g1, std::vector<double> g2, std::vector<int> b0, std::vector<int> b1, std::vector<int> b2, std::vector<int> c0, std::vector<int> c1, std::vector<int> c2, std::vector<int> binf )
	{
		World w; w.name=nm; w.n=n; w.m=m; auto mk=mkWorldQP; w.d.push_back( mk( n,m,H,g0,A,b0,c0 ) ); w.d.push_back( mk( n,m,H1,g1,A1,b1,c1 ) ); w.d.push_back( mk( n,m,H,g1,A,b1,c1 ) ); w.d.push_back( mk( n,m,H,g2,A,b2,c2 ) ); w.d.push_back( mk( n,m,H,g0,A,binf,c0 ) ); W.push_back( w );
	};
	std::vector<double> E;
	world( "B1",1,0,{2},E,{1},E,{-2},{3},{-5},{0},{2},{1},{},{},{},{7} );
	world( "B3",3,0,{2,1,0,1,2,-1,0,-1,2},E,{3,0,0,0,2,0,0,0,1},E,{-2,1,3},{3,3,-3},{-5,4,0},{0,0,1},{10,5,3},{1,4,0},{},{},{},{0,7,0} );
	world( "B3s",3,0,{1,-1,0,-1,1,0,0,0,0},E,{2,1,0,1,2,0,0,0,1},E,{-2,1,3},{3,3,-3},{-5,4,0},{0,0,0},{0,5,6},{5,4,0},{},{},{},{0,7,0} );
	world( "Q11",1,1,{0},{1},{1},{2},{-2},{3},{-5},{0},{5},{6},{3},{2},{5},{7} );
	world( "Q22",2,2,{2,-1,-1,2},{1,1,1,-1},{1,0,0,1},{2,1,0,1},{-2,1},{3,3},{-5,4},{0,0},{2,5},{1,4},{0,3},{5,0},{2,0},{0,7} );
	world( "Q32",3,2,{2,1,0,1,2,-1,0,-1,2},{1,1,1,1,-1,0},{3,0,0,0,2,0,0,0,1},{1,0,1,0,1,1},{-2,1,3},{3,3,-3},{-5,4,0},{0,0,1},{2,5,3},{1,4,0},{0,3},{5,10},{4,0},{0,7,0} );
	world( "Q22z",2,2,{0,0,0,0},{1,1,1,-1},{1,0,0,1},{2,1,0,1},{-2,1},{3,3},{-5,4},{0,0},{0,5},{0,6},{0,3},{2,0},{2,0},{0,7} );
	world( "Q23",2,3,{1,0,0,1},{1,1,1,-1,1,2},{2,1,1,2},{0,1,1,0,1,1},{-4,1},{3,3},{-5,4},{0,0},{2,5},{0,4},{0,3,0},{5,2,0},{4,10,2},{0,7} );
	world( "Q32n",3,2,{1,2,0,2,-1,0,0,0,-2},{1,1,1,1,-1,0},{-1,2,0,2,1,1,0,1,-1},{1,0,0,0,1,0},{-4,1,3},{3,3,-3},{-5,4,-1},{0,0,0},{0,5,0},{0,6,0},{0,5},{5,2},{0,0},{0,7,0} );
	return W;
}
inline mc::u64 ipow( mc::u64 b, int e ) { mc::u64 r=1; while( e-- ) r*=b; return r; }
