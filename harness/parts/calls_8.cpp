#include "../calls.h"
void calls_part8() { full<Fl, D, Fl, D, Fl, D, Fl, D, Fl, D, Fl, D>(); full<J, I, D, O, J, I, D, O, J, I, D, O>(); full<A, A, T, T, O, O, Z, Z>(); full<S, B, Z, C, J>(); full<A, I, T>(); full<T, Fl, A>(); }
