#include "../calls.h"
void calls_part2() { full<Fl>(); full<D>(); full<O>(); full<A>(); full<T>(); }
