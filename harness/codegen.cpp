// Replayer for Codegen.tla (C19).  The generated stubs are compiled with the library's own interface flags.
#include "vf.h"
#include <jnivm.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <baron/baron.h>
#include <set>
#include "cgconfig.h"
using vf::Args;
int vf_op_timeout = 280;
struct VBaron : Baron::Jvm { jnivm::VM* base() { return jnivm::VM::FromJavaVM(this); } };
static std::string run(const std::string& cmd, int& rc) {
    std::string out; char b[4096]; size_t n; FILE* p = popen((cmd + " 2>&1").data(), "r");
    while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n);
    rc = pclose(p); return out;
}
static std::string list(const std::string& all, const std::string& pre) { // a:b -> pre'a' pre'b'
    std::string r, x; std::istringstream in(all); while (std::getline(in, x, ':')) if (!x.empty()) r += " " + pre + "'" + x + "'"; return r;
}
static void native(JNIEnv*, jobject) {}
struct CodegenWorld : vf::World {
    std::unique_ptr<jnivm::VM> plain; std::unique_ptr<VBaron> baron; jnivm::VM* vm = nullptr; std::string mode;
    std::string seen(const std::string& c) {
        static const std::set<std::string> sys = {"java/lang/Object", "java/lang/String", "java/lang/Class", "java/nio/ByteBuffer", "java/lang/Throwable", "java/lang/reflect/Method", "java/lang/reflect/Field", "java/lang/ref/WeakReference", "internal/lang/Global"};
        int n = 0; for (auto& x : vm->classes) if (x.first[0] != '[' && !sys.count(x.first)) n++;
        auto f = vm->classes.find(c); bool known = f != vm->classes.end() && c[0] != '[';
        return vf::iarr({n, known ? (long long)f->second->methods.size() : 0, known ? (long long)f->second->fields.size() : 0});
    }
    std::string op(const std::string& n, const Args& a) override {
        if (n == "config") { // dump: GenerateClassDump; stats: Baron's printStatistics (fake-jni syntax)
            mode = a[0]; if (mode == "dump") { plain.reset(new jnivm::VM(false, false)); vm = plain.get(); } else { baron.reset(new VBaron); vm = baron->base(); }
            return "0";
        }
        if (n == "part") return "0";
        auto e = vm->GetJNIEnv();
        if (n == "rebind") {
            std::string base = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"; auto d = base + "/cgXXXXXX"; if (!mkdtemp(&d[0])) return "\"mkdtemp\"";
            std::string err, out;
            if (mode == "dump") vm->GenerateClassDump((d + "/stubs.hpp").data());
            else { std::ofstream f(d + "/stubs.hpp"); auto old = std::cout.rdbuf(f.rdbuf()); baron->printStatistics(); std::cout.rdbuf(old); }
            { std::ofstream l(d + "/list"); for (auto& x : a) { std::istringstream in(x); std::string y; if (x != "-") while (std::getline(in, y, ',')) l << y << "\n"; } }
            std::ofstream u(d + "/use.cpp");
            u << "#include \"stubs.hpp\"\n#include \"cgdrive.h\"\n";
#ifdef VF_FAKESYNTAX
            u << "struct V : FakeJni::Jvm { V() : FakeJni::Jvm(false, true) {} };\nint main(int c, char** v) { V vm; InitJNIBinding(&vm); auto b = jnivm::VM::FromJavaVM(&vm); cg::run(b->GetJNIEnv(), b->classes, v[1]); }\n";
            std::string std = "c++17";
#else
            u << "int main(int c, char** v) { jnivm::VM vm(false, true); InitJNIBinding(vm.GetEnv().get()); cg::run(vm.GetJNIEnv(), vm.classes, v[1]); }\n";
            std::string std = "c++14";
#endif
            u.close(); int rc;
            out = run("cd " + d + " && LC_ALL=C /usr/bin/g++ -std=" + std + " -O0 -w -fmax-errors=1" + list(VF_DEFS, "-D") + list(VF_INCS, "-I") + " -I" VF_HARNESS " use.cpp -o use" + list(VF_LIBS, "") + " -ldl -lpthread", rc);
            if (rc) { auto p = out.find("error:"); err = "does not compile: " + (p == std::string::npos ? out.substr(0, 200) : out.substr(p, 200)); for (auto& c : err) if (c == '\n') c = ' '; }
            else { out = run("cd " + d + " && timeout 60 ./use list", rc); auto p = out.find("@@{"); if (rc || p == std::string::npos) err = "the stubs do not run"; else out = out.substr(p + 2, out.find('\n', p) - p - 2); }
            run("/bin/rm -rf '" + d + "'", rc);
            if (!err.empty()) return vf::Obj().t("error", err).raw("missing", "[]").raw("extra", "[]").raw("wrong", "[]").end();
            return out;
        }
        auto c = e->FindClass(a[0].data());
        if (n == "method") { if (a[1] == "s") e->GetStaticMethodID(c, a[2].data(), a[3].data()); else e->GetMethodID(c, a[2].data(), a[3].data()); }
        else if (n == "field") { if (a[1] == "g") e->GetStaticFieldID(c, a[2].data(), a[3].data()); else e->GetFieldID(c, a[2].data(), a[3].data()); }
        else if (n == "native") { JNINativeMethod m{(char*)a[1].data(), (char*)"()V", (void*)native}; e->RegisterNatives(c, &m, 1); }
        return seen(a[0]);
    }
};
vf::World* vf_make_world() { return new CodegenWorld; }
std::string vf_fini() { return vf::Obj().end(); }
