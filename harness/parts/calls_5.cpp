#include "../calls.h"
void calls_part5() { full<Fl, Fl>(); full<Fl, D>(); full<Fl, O>(); full<D, I>(); full<D, J>(); full<D, Fl>(); }
