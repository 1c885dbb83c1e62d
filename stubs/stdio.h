#pragma once
#include <stddef.h>
typedef struct FILE_ FILE;
extern FILE *stderr, *stdout;
int fprintf(FILE *, const char *, ...); int printf(const char *, ...); int snprintf(char *, size_t, const char *, ...);
int sprintf(char *, const char *, ...);
