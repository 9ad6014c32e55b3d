#include <malloc.h>
static long in_use(){ struct mallinfo2 m=mallinfo2(); return (long)m.uordblks; }
