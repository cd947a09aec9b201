#include "../hooks.h"
void hooks_part1() {
    shape<FN | ST, void, Object*>("-/o/-/V");
    shape<FN | ST | GETI, jint, Object*>("-/o/-/I");
    shape<FN | ST | SETI, void, Object*, jint>("-/o/I/V");
    shape<FN | ST, jint, Object*, jint>("-/o/I/I");
    shape<FN | ST, SP<String>, Object*, SP<String>, jlong>("-/o/T,J/T");
    shape<ST, void, Class*>("-/c/-/V");
    shape<ST | GET, jint, Class*>("-/c/-/I");
    shape<ST | SET, void, Class*, jint>("-/c/I/V");
    shape<ST, jint, Class*, jint>("-/c/I/I");
    shape<ST, SP<String>, Class*, SP<String>, jlong>("-/c/T,J/T");
    shape<ST, void, ENV*, jobject>("e/j/-/V");
    shape<ST, jint, ENV*, jobject>("e/j/-/I");
    shape<ST, void, ENV*, jobject, jint>("e/j/I/V");
    shape<ST, jint, ENV*, jobject, jint>("e/j/I/I");
    shape<ST, SP<String>, ENV*, jobject, SP<String>, jlong>("e/j/T,J/T");
    shape<FN | ST, void, ENV*, jclass>("e/k/-/V");
    shape<FN | ST | GETS, jint, ENV*, jclass>("e/k/-/I");
    shape<FN | ST | SETS, void, ENV*, jclass, jint>("e/k/I/V");
    shape<FN | ST, jint, ENV*, jclass, jint>("e/k/I/I");
    shape<FN | ST, SP<String>, ENV*, jclass, SP<String>, jlong>("e/k/T,J/T");
    shape<FN | ST, void, JNIEnv*, Recv*>("n/r/-/V");
    shape<FN | ST | GETI, jint, JNIEnv*, Recv*>("n/r/-/I");
    shape<FN | ST | SETI, void, JNIEnv*, Recv*, jint>("n/r/I/V");
    shape<FN | ST, jint, JNIEnv*, Recv*, jint>("n/r/I/I");
    shape<FN | ST, SP<String>, JNIEnv*, Recv*, SP<String>, jlong>("n/r/T,J/T");
}
