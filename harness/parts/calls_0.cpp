#include "../calls.h"
void calls_part0() { add<void>(); addc<>(); add<Z>(); add<B>(); add<C>(); add<S>(); add<I>(); add<J>(); add<Fl>(); add<D>(); add<O>(); add<A>(); add<T>(); }
