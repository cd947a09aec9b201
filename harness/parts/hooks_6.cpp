#include "../hooks.h"
void hooks_part6() {
    shape<FN | ST, void, Parent*>("-/b/-/V");
    shape<FN | ST, jint, Parent*, jint>("-/b/I/I");
    shape<FN | ST, void, ENV*, Parent*>("e/b/-/V");
    shape<FN | ST, jint, ENV*, Parent*, jint>("e/b/I/I");
    shape<FN | ST, void, JNIEnv*, Parent*>("n/b/-/V");
    shape<FN | ST, jint, JNIEnv*, Parent*, jint>("n/b/I/I");
    shape<FN | ST, void, Child*>("-/d/-/V");
    shape<FN | ST, jint, Child*, jint>("-/d/I/I");
    shape<FN | ST, void, ENV*, Child*>("e/d/-/V");
    shape<FN | ST, jint, ENV*, Child*, jint>("e/d/I/I");
    shape<FN | ST, void, JNIEnv*, Child*>("n/d/-/V");
    shape<FN | ST, jint, JNIEnv*, Child*, jint>("n/d/I/I");
}
