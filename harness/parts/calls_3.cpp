#include "../calls.h"
void calls_part3() { full<I, I>(); full<I, J>(); full<I, Fl>(); full<I, D>(); full<I, O>(); full<J, I>(); }
