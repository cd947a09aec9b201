// Replayer for Calls.tla (C08), see calls.h.
#include "calls.h"
#undef VF_NO_MAIN
#include "vf_main.h"
int vf_op_timeout = 20;
State st;
std::map<std::string, Sig*> table;
void calls_part0(); void calls_part1(); void calls_part2(); void calls_part3(); void calls_part4(); void calls_part5(); void calls_part6(); void calls_part7(); void calls_part8(); void calls_part9();
static void fill() {
    if (!table.empty()) return;
    calls_part0(); calls_part1(); calls_part2(); calls_part3(); calls_part4(); calls_part5(); calls_part6(); calls_part7(); calls_part8(); calls_part9();
}

struct VJvm : FakeJni::Jvm { VJvm() : FakeJni::Jvm(false, true) {} };
struct CallsWorld : vf::World {
    std::unique_ptr<VJvm> vm;
    jclass cls, made; jobject local, global, weak;
    SP<Object> recv;
    std::set<std::string> hooked;
    ~CallsWorld() { recv = nullptr; auto t = st.tick; st = State(); st.tick = t; vm.reset(); }
    ENV* env() { return jnivm::VM::FromJavaVM(vm.get())->GetEnv().get(); }
    static std::vector<std::string> split(const std::string& s) {
        std::vector<std::string> r; if (s == "-") return r;
        std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) r.push_back(t); return r;
    }
    std::string op(const std::string& n, const Args& a) override {
        if (!vm) {
            fill();
            vm.reset(new VJvm());
            auto e = env(); auto j = e->GetJNIEnv();
            e->GetClass<Recv>("t/Recv"); e->GetClass<Made>("t/Made");
            cls = (jclass)j->NewGlobalRef(j->FindClass("t/Recv")); made = (jclass)j->NewGlobalRef(j->FindClass("t/Made"));
            recv = std::make_shared<Recv>();
            local = JNITypes<SP<Object>>::ToJNIType(e, recv); global = j->NewGlobalRef(local); weak = j->NewWeakGlobalRef(local);
            st.a = std::make_shared<Recv>(); st.b = std::make_shared<Made>(); st.x = std::make_shared<IntArray>(3); st.y = std::make_shared<IntArray>(0);
            st.s = std::make_shared<String>("s"); st.t = std::make_shared<String>("");
            st.q = std::make_shared<StrArray>(2); st.u = std::make_shared<StrArray>(0); st.m = std::make_shared<IntMatrix>(2); st.k = std::make_shared<IntMatrix>(0);
            auto la = JNITypes<SP<Object>>::ToJNIType(e, st.a), lb = JNITypes<SP<Object>>::ToJNIType(e, st.b);
            st.ga = j->NewGlobalRef(la); st.wa = j->NewWeakGlobalRef(la); st.gb = j->NewGlobalRef(lb); st.wb = j->NewWeakGlobalRef(lb);
        }
        auto e = env(); auto j = e->GetJNIEnv();
        if (n == "call") {
            j->PushLocalFrame(16);
            st.tick++;
            Ctx x{e, j, st.tick % 4 == 0 ? global : st.tick % 4 == 1 ? weak : local, cls, made, recv, e->GetClass("t/Recv"), e->GetClass("t/Made")};
            auto key = a[1] + ":" + a[2];
            auto s = table.find(key);
            if (s == table.end()) return vf::Obj().t("error", "no instance for " + key).end();
            if (hooked.insert(key).second) s->second->hook(x);
            st.n = 0; st.args.clear(); st.recv = st.env = nullptr; st.ret = a[4]; st.made = nullptr;
            auto r = s->second->call(x, a[0], split(a[3]));
            bool cl = a[0][0] == 's' || a[0] == "t", ct = a[0][0] == 'c';
            bool rv = ct ? st.recv == x.made.get() : cl ? st.recv == x.c.get() : st.recv == recv.get();
            auto out = vf::Obj().i("n", st.n).raw("args", vf::sarr(st.args)).i("recv", rv).i("env", st.env == j);
            if (j->ExceptionCheck()) { j->ExceptionClear(); r = "exception"; }
            j->PopLocalFrame(nullptr);
            return out.t("r", r).end();
        }
        return vf::Obj().t("error", "unknown operation " + n).end();
    }
};
vf::World* vf_make_world() { return new CallsWorld(); }
std::string vf_fini() { return "{}"; }
