#include "../hooks.h"
void hooks_part3() {
    shape<FN | ST, void, Recv*>("-/r/-/V");
    shape<FN | ST | GETI, jint, Recv*>("-/r/-/I");
    shape<FN | ST | SETI, void, Recv*, jint>("-/r/I/V");
    shape<FN | ST, jint, Recv*, jint>("-/r/I/I");
    shape<FN | ST, SP<String>, Recv*, SP<String>, jlong>("-/r/T,J/T");
    shape<FN | ST, void, ENV*>("e/-/-/V");
    shape<FN | ST | GET, jint, ENV*>("e/-/-/I");
    shape<FN | ST | SET, void, ENV*, jint>("e/-/I/V");
    shape<FN | ST, jint, ENV*, jint>("e/-/I/I");
    shape<FN | ST, SP<String>, ENV*, SP<String>, jlong>("e/-/T,J/T");
    shape<FN | ST, void, ENV*, Made*>("e/m/-/V");
    shape<FN | ST, jint, ENV*, Made*>("e/m/-/I");
    shape<FN | ST, void, ENV*, Made*, jint>("e/m/I/V");
    shape<FN | ST, jint, ENV*, Made*, jint>("e/m/I/I");
    shape<FN | ST, SP<String>, ENV*, Made*, SP<String>, jlong>("e/m/T,J/T");
    shape<FN | ST, void, JNIEnv*, Object*>("n/o/-/V");
    shape<FN | ST | GETI, jint, JNIEnv*, Object*>("n/o/-/I");
    shape<FN | ST | SETI, void, JNIEnv*, Object*, jint>("n/o/I/V");
    shape<FN | ST, jint, JNIEnv*, Object*, jint>("n/o/I/I");
    shape<FN | ST, SP<String>, JNIEnv*, Object*, SP<String>, jlong>("n/o/T,J/T");
    shape<ST, void, JNIEnv*, Class*>("n/c/-/V");
    shape<ST | GET, jint, JNIEnv*, Class*>("n/c/-/I");
    shape<ST | SET, void, JNIEnv*, Class*, jint>("n/c/I/V");
    shape<ST, jint, JNIEnv*, Class*, jint>("n/c/I/I");
    shape<ST, SP<String>, JNIEnv*, Class*, SP<String>, jlong>("n/c/T,J/T");
}
