/* C library of the simulated 32-bit machine */
#pragma once
#include <stddef.h>
void *memcpy( void *, const void *, size_t ), *memmove( void *, const void *, size_t ), *memset( void *, int, size_t ), *memchr( const void *, int, size_t );
int memcmp( const void *, const void *, size_t ), strcmp( const char *, const char * ), strncmp( const char *, const char *, size_t );
size_t strlen( const char * );
char *strchr( const char *, int );
