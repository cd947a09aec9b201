#include "../calls.h"
void calls_part6() { full<D, D>(); full<D, O>(); full<O, I>(); full<O, J>(); full<O, Fl>(); full<O, D>(); full<O, O>(); }
