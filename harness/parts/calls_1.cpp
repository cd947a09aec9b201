#include "../calls.h"
void calls_part1() { full<Z>(); full<B>(); full<C>(); full<S>(); full<I>(); full<J>(); }
