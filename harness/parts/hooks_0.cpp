#include "../hooks.h"
void hooks_part0() {
    shape<FN | ST, void>("-/-/-/V");
    shape<FN | ST | GET, jint>("-/-/-/I");
    shape<FN | ST | SET, void, jint>("-/-/I/V");
    shape<FN | ST, jint, jint>("-/-/I/I");
    shape<FN | ST, SP<String>, SP<String>, jlong>("-/-/T,J/T");
    shape<FN | ST, void, Made*>("-/m/-/V");
    shape<FN | ST, jint, Made*>("-/m/-/I");
    shape<FN | ST, void, Made*, jint>("-/m/I/V");
    shape<FN | ST, jint, Made*, jint>("-/m/I/I");
    shape<FN | ST, SP<String>, Made*, SP<String>, jlong>("-/m/T,J/T");
    shape<FN | ST, void, ENV*, Object*>("e/o/-/V");
    shape<FN | ST | GETI, jint, ENV*, Object*>("e/o/-/I");
    shape<FN | ST | SETI, void, ENV*, Object*, jint>("e/o/I/V");
    shape<FN | ST, jint, ENV*, Object*, jint>("e/o/I/I");
    shape<FN | ST, SP<String>, ENV*, Object*, SP<String>, jlong>("e/o/T,J/T");
    shape<ST, void, ENV*, Class*>("e/c/-/V");
    shape<ST | GET, jint, ENV*, Class*>("e/c/-/I");
    shape<ST | SET, void, ENV*, Class*, jint>("e/c/I/V");
    shape<ST, jint, ENV*, Class*, jint>("e/c/I/I");
    shape<ST, SP<String>, ENV*, Class*, SP<String>, jlong>("e/c/T,J/T");
    shape<ST, void, JNIEnv*, jobject>("n/j/-/V");
    shape<ST, jint, JNIEnv*, jobject>("n/j/-/I");
    shape<ST, void, JNIEnv*, jobject, jint>("n/j/I/V");
    shape<ST, jint, JNIEnv*, jobject, jint>("n/j/I/I");
    shape<ST, SP<String>, JNIEnv*, jobject, SP<String>, jlong>("n/j/T,J/T");
    shape<FN | ST, void, JNIEnv*, jclass>("n/k/-/V");
    shape<FN | ST | GETS, jint, JNIEnv*, jclass>("n/k/-/I");
    shape<FN | ST | SETS, void, JNIEnv*, jclass, jint>("n/k/I/V");
    shape<FN | ST, jint, JNIEnv*, jclass, jint>("n/k/I/I");
    shape<FN | ST, SP<String>, JNIEnv*, jclass, SP<String>, jlong>("n/k/T,J/T");
}
