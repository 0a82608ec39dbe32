#pragma once
#include <stddef.h>
typedef struct FILE FILE;
extern FILE *stdout, *stderr;
int printf( const char *, ... ), fprintf( FILE *, const char *, ... );
