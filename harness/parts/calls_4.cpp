#include "../calls.h"
void calls_part4() { full<J, J>(); full<J, Fl>(); full<J, D>(); full<J, O>(); full<Fl, I>(); full<Fl, J>(); }
