#include "../hooks.h"
void hooks_part5() {
    shape<FN | ST | SET | MF, void, ENV*, bool>("e/-/z/V");
    shape<FN | ST | GET | MF, bool, ENV*>("e/-/-/z");
    shape<FN | ST | SET | MF, void, ENV*, jchar>("e/-/C/V");
    shape<FN | ST | GET | MF, jchar, ENV*>("e/-/-/C");
    shape<FN | ST | SET | MF, void, ENV*, jint>("e/-/I/V");
    shape<FN | ST | SET | MF, void, ENV*, jfloat>("e/-/F/V");
    shape<FN | ST | GET | MF, jfloat, ENV*>("e/-/-/F");
    shape<FN | ST | SET | MF, void, ENV*, SP<String>>("e/-/T/V");
    shape<FN | ST | GET | MF, SP<String>, ENV*>("e/-/-/T");
    shape<FN | ST | SET | MF, void, ENV*, SP<Recv>>("e/-/R/V");
    shape<FN | ST | GET | MF, SP<Recv>, ENV*>("e/-/-/R");
    shape<FN | ST | SET | MF, void, ENV*, SP<Class>>("e/-/K/V");
    shape<FN | ST | GET | MF, SP<Class>, ENV*>("e/-/-/K");
    shape<FN | ST | SET | MF, void, ENV*, SP<Arr<Arr<jint>>>>("e/-/X/V");
    shape<FN | ST | GET | MF, SP<Arr<Arr<jint>>>, ENV*>("e/-/-/X");
    shape<MF, jint, jint>("-/mf/I/I");
    shape<MF, jint, ENV*, jint>("e/mf/I/I");
    shape<MF, jint, JNIEnv*, jint>("n/mf/I/I");
}
