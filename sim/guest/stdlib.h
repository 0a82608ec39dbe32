#pragma once
#include <stddef.h>
void *malloc( size_t ), *calloc( size_t, size_t ), *realloc( void *, size_t );
void free( void * ), abort( void ) __attribute__((noreturn)), exit( int ) __attribute__((noreturn));
int abs( int );
