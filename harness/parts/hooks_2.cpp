#include "../hooks.h"
void hooks_part2() {
    shape<ST, void, jobject>("-/j/-/V");
    shape<ST, jint, jobject>("-/j/-/I");
    shape<ST, void, jobject, jint>("-/j/I/V");
    shape<ST, jint, jobject, jint>("-/j/I/I");
    shape<ST, SP<String>, jobject, SP<String>, jlong>("-/j/T,J/T");
    shape<FN | ST, void, jclass>("-/k/-/V");
    shape<FN | ST | GETS, jint, jclass>("-/k/-/I");
    shape<FN | ST | SETS, void, jclass, jint>("-/k/I/V");
    shape<FN | ST, jint, jclass, jint>("-/k/I/I");
    shape<FN | ST, SP<String>, jclass, SP<String>, jlong>("-/k/T,J/T");
    shape<FN | ST, void, ENV*, Recv*>("e/r/-/V");
    shape<FN | ST | GETI, jint, ENV*, Recv*>("e/r/-/I");
    shape<FN | ST | SETI, void, ENV*, Recv*, jint>("e/r/I/V");
    shape<FN | ST, jint, ENV*, Recv*, jint>("e/r/I/I");
    shape<FN | ST, SP<String>, ENV*, Recv*, SP<String>, jlong>("e/r/T,J/T");
    shape<FN | ST, void, JNIEnv*>("n/-/-/V");
    shape<FN | ST | GET, jint, JNIEnv*>("n/-/-/I");
    shape<FN | ST | SET, void, JNIEnv*, jint>("n/-/I/V");
    shape<FN | ST, jint, JNIEnv*, jint>("n/-/I/I");
    shape<FN | ST, SP<String>, JNIEnv*, SP<String>, jlong>("n/-/T,J/T");
    shape<FN | ST, void, JNIEnv*, Made*>("n/m/-/V");
    shape<FN | ST, jint, JNIEnv*, Made*>("n/m/-/I");
    shape<FN | ST, void, JNIEnv*, Made*, jint>("n/m/I/V");
    shape<FN | ST, jint, JNIEnv*, Made*, jint>("n/m/I/I");
    shape<FN | ST, SP<String>, JNIEnv*, Made*, SP<String>, jlong>("n/m/T,J/T");
}
