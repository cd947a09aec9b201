// Replayer for Monitors.tla (C14): several threads enter and leave monitors; a thread counts as blocked
// when the kernel shows it sleeping, unchanged, while its call has not returned.
#include "vf.h"
#include "workers.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <sys/syscall.h>
using vf::Args; using jnivm::ENV; using jnivm::Object;
int vf_op_timeout = 60;
struct MonWorld : vf::World {
    jnivm::VM vm; std::map<std::string, std::shared_ptr<Object>> objs; std::map<std::string, jobject> glob; std::map<std::string, jweak> weak; unsigned tick = 0;
    struct T { std::unique_ptr<vf::Worker> w; JNIEnv* j = nullptr; pid_t tid = 0; bool busy = false; std::vector<std::string> own; };
    std::map<std::string, T> th;
    std::string state(pid_t t) { // kernel state and number of context switches
        std::ifstream f("/proc/self/task/" + std::to_string(t) + "/status"); std::string l, r;
        while (std::getline(f, l)) if (!l.compare(0, 6, "State:") || l.find("ctxt_switches") != std::string::npos) r += l;
        return r;
    }
    void settle() { // until every thread in a call has returned or sleeps
        std::map<std::string, std::pair<std::string, int>> seen;
        for (;;) {
            bool done = true;
            for (auto& t : th) if (t.second.busy) {
                if (t.second.w->idle()) { t.second.w->wait(); t.second.busy = false; continue; }
                auto s = state(t.second.tid); auto& p = seen[t.first];
                if (s.find("S (sleeping)") == std::string::npos || s != p.first) { p = { s, 0 }; done = false; }
                else if (++p.second < 4) done = false;
            }
            if (done) return;
            usleep(400);
        }
    }
    void start(const std::string& t, std::function<void()> f) { auto& x = th[t]; x.busy = true; x.w->start(std::move(f)); }
    jobject h(JNIEnv* j, const std::string& o, char k) {
        if (k == 'x') k = "lgw"[++tick % 3];
        if (k == 'g') return glob[o]; if (k == 'w') return weak[o];
        if (k == 'c') return j->NewGlobalRef(weak[o]); // one more global reference
        return j->NewLocalRef(glob[o]);
    }
    void rel(JNIEnv* j, const std::string& o, jobject r) { if (r != glob[o] && r != weak[o]) { if (j->GetObjectRefType(r) == JNIGlobalRefType) j->DeleteGlobalRef(r); else j->DeleteLocalRef(r); } }
    std::string op(const std::string& n, const Args& a) override {
        auto j0 = vm.GetEnv()->GetJNIEnv();
        if (n == "config") {
            for (int i = 1; i <= std::stoi(a[0]); ++i) {
                auto& t = th["t" + std::to_string(i)]; t.w.reset(new vf::Worker);
                t.w->run([&] { t.tid = (pid_t)syscall(SYS_gettid); vm.GetJavaVM()->AttachCurrentThread(&t.j, nullptr); });
            }
            for (auto o : {"a", "b", "c"}) { objs[o] = std::make_shared<Object>(); auto l = jnivm::JNITypes<std::shared_ptr<Object>>::ToJNIType(vm.GetEnv().get(), objs[o]); glob[o] = j0->NewGlobalRef(l); weak[o] = j0->NewWeakGlobalRef(l); j0->DeleteLocalRef(l); }
            return "0";
        }
        auto& t = th[a[0]]; auto o = a[1]; char k = a[2][0];
        jint* rc = new jint(0);
        if (n == "enter") start(a[0], [=, &t] { auto r = h(t.j, o, k); *rc = t.j->MonitorEnter(r); t.own.push_back(o); rel(t.j, o, r); });
        else start(a[0], [=, &t] { auto r = h(t.j, o, k); *rc = t.j->MonitorExit(r); t.own.erase(std::find(t.own.begin(), t.own.end(), o)); rel(t.j, o, r); });
        settle();
        vf::Obj r; bool bad = !t.busy && *rc != 0; if (!t.busy) delete rc;
        for (auto& x : th) r.b(x.first, x.second.busy);
        if (bad) r.i("rc", 1);
        return r.end();
    }
    ~MonWorld() {
        for (bool any = true; any;) { // threads that own something leave, so that the waiting ones can enter
            any = false; settle();
            for (auto& t : th) if (!t.second.busy && t.second.own.size()) { auto& x = t.second; any = true; x.w->run([&] { while (x.own.size()) { x.j->MonitorExit(glob[x.own.back()]); x.own.pop_back(); } }); }
            for (auto& t : th) any |= t.second.busy;
        }
        for (auto& t : th) t.second.w->run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
        th.clear();
        auto j = vm.GetEnv()->GetJNIEnv(); for (auto& g : glob) j->DeleteGlobalRef(g.second); for (auto& w : weak) j->DeleteWeakGlobalRef(w.second);
    }
};
vf::World* vf_make_world() { return new MonWorld; }
std::string vf_fini() { return vf::Obj().end(); }
