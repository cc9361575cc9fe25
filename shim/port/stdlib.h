#ifndef VF_STDLIB_H
#define VF_STDLIB_H
#include <stddef.h>
void abort(void); int abs(int);
#endif
