#pragma once
#include <stddef.h>
int abs(int); long labs(long);
void *malloc(size_t); void free(void *);
