#pragma once
struct CQp { const double *H,*g,*A,*lb,*ub,*lbA,*ubA; };
struct CApi
{
	long (*setup)( int,long,long,long ); long (*cleanup)( int );
	long (*init)( int,const CQp*,long*,double*,const void*,double*,double*,double*,long* );
	long (*hot)( int,const CQp*,long*,double*,double*,double*,double*,long* );
	long (*optInit)( void*,long ); long (*optCopy)( const void*,void* ); void (*setPrint)( void*,long );
};
extern "C" { extern CApi cApi; extern int cConst[16],cConst2[4],cSizes[5]; extern long cSizeOpt; }
