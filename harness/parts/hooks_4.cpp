#include "../hooks.h"
void hooks_part4() {
    shape<FN | ST | SET | MF, void, ENV*, jboolean>("e/-/Z/V");
    shape<FN | ST | GET | MF, jboolean, ENV*>("e/-/-/Z");
    shape<FN | ST | SET | MF, void, ENV*, jbyte>("e/-/B/V");
    shape<FN | ST | GET | MF, jbyte, ENV*>("e/-/-/B");
    shape<FN | ST | SET | MF, void, ENV*, jshort>("e/-/S/V");
    shape<FN | ST | GET | MF, jshort, ENV*>("e/-/-/S");
    shape<FN | ST | SET | MF, void, ENV*, jlong>("e/-/J/V");
    shape<FN | ST | GET | MF, jlong, ENV*>("e/-/-/J");
    shape<FN | ST | SET | MF, void, ENV*, jdouble>("e/-/D/V");
    shape<FN | ST | GET | MF, jdouble, ENV*>("e/-/-/D");
    shape<FN | ST | SET | MF, void, ENV*, SP<Object>>("e/-/O/V");
    shape<FN | ST | GET | MF, SP<Object>, ENV*>("e/-/-/O");
    shape<FN | ST | SET | MF, void, ENV*, SP<Named>>("e/-/N/V");
    shape<FN | ST | GET | MF, SP<Named>, ENV*>("e/-/-/N");
    shape<FN | ST | SET | MF, void, ENV*, SP<Arr<jint>>>("e/-/A/V");
    shape<FN | ST | GET | MF, SP<Arr<jint>>, ENV*>("e/-/-/A");
    shape<FN | ST | SET | MF, void, ENV*, SP<Arr<SP<String>>>>("e/-/Y/V");
    shape<FN | ST | GET | MF, SP<Arr<SP<String>>>, ENV*>("e/-/-/Y");
    shape<MF, void>("-/mf/-/V");
    shape<MF, void, ENV*>("e/mf/-/V");
    shape<MF, void, JNIEnv*>("n/mf/-/V");
    shape<MF, SP<String>, SP<String>, jlong>("-/mf/T,J/T");
    shape<MF, SP<String>, ENV*, SP<String>, jlong>("e/mf/T,J/T");
    shape<MF, SP<String>, JNIEnv*, SP<String>, jlong>("n/mf/T,J/T");
}
