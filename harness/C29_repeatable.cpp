// C29: results are a function of the calls made: the operations of C28, one at a time, with other contents in unused
// memory and after other histories than in a process that has done nothing else. The driver is in repeatable.h.
#define VDET 1
#include "C28_threads.cpp"
