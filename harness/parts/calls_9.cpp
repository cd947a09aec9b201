#include "../calls.h"
void calls_part9() { add<Q>(); add<W>(); full<Q>(); full<W>(); full<W, I>(); full<I, W, J>(); full<Q, J, O>(); full<I, Q, D>(); full<W, W, S>(); full<Q, W, Q>(); full<Q, Q, T, W, A, O, B>(); full<I, J, D, O, Fl, A, I, T, J, D, S, Z, B, C, O, Q, I, J, D, Fl, I, J, D, I>(); full<I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, D, D, D, D, D, D, D, D, D, D, D, D, D, D, D, D, D, D, D, D>(); }
