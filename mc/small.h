/* Flavour VC3S: the library with a tiny INT_MAX, so that the code for counters reaching their limits (SEM_VALUE_MAX, the
   reader counts of read-write locks, the gone-waiter count of condition variables) is within reach of exhaustive search. */
#include <limits.h>
#undef INT_MAX
#define INT_MAX 5
