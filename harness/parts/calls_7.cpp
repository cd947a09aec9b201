#include "../calls.h"
void calls_part7() { full<Z, B, C, S, I, J, Fl, D, O, A, T>(); full<T, A, O, D, Fl, J, I, S, C, B, Z>(); full<I, I, I, I, I, I, I, I, I, I, I, I>(); full<D, D, D, D, D, D, D, D, D, D, D, D>();  full<O, J, O>(); }
