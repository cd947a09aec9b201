// Runs in the program made of the generated stubs: looks for everything the specification says was referenced.
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace cg {
struct Member { char k; std::string c, n, s; };
inline std::vector<std::string> split(const std::string& s, char d, int max = 0) {
    std::vector<std::string> r; size_t b = 0;
    for (;;) { auto e = (max && (int)r.size() == max - 1) ? std::string::npos : s.find(d, b); r.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) return r; b = e + 1; }
}
inline std::vector<char> params(const std::string& s) { // one letter per parameter
    std::vector<char> r;
    for (size_t i = 1; i < s.size() && s[i] != ')'; ++i) { char k = s[i] == '[' ? 'L' : s[i]; while (s[i] == '[') ++i; if (s[i] == 'L') { k = 'L'; i = s.find(';', i); } r.push_back(k); }
    return r;
}
template<class Methods, class Fields> std::string name(Methods, Fields) { return ""; }
// the two ways a function can be read: with and without the class as first argument
inline std::string stripped(std::string s) { auto p = s.find("(Ljava/lang/Class;"); if (p == 0) s.erase(1, 17); return s; }
inline bool value(JNIEnv* e, jclass c, jobject o, jmethodID m, char r, jvalue* a) { // true: zero
    switch (r) {
    case 'V': o ? e->CallVoidMethodA(o, m, a) : e->CallStaticVoidMethodA(c, m, a); return true;
    case 'Z': return !(o ? e->CallBooleanMethodA(o, m, a) : e->CallStaticBooleanMethodA(c, m, a));
    case 'B': return !(o ? e->CallByteMethodA(o, m, a) : e->CallStaticByteMethodA(c, m, a));
    case 'C': return !(o ? e->CallCharMethodA(o, m, a) : e->CallStaticCharMethodA(c, m, a));
    case 'S': return !(o ? e->CallShortMethodA(o, m, a) : e->CallStaticShortMethodA(c, m, a));
    case 'I': return !(o ? e->CallIntMethodA(o, m, a) : e->CallStaticIntMethodA(c, m, a));
    case 'J': return !(o ? e->CallLongMethodA(o, m, a) : e->CallStaticLongMethodA(c, m, a));
    case 'F': return !(o ? e->CallFloatMethodA(o, m, a) : e->CallStaticFloatMethodA(c, m, a));
    case 'D': return !(o ? e->CallDoubleMethodA(o, m, a) : e->CallStaticDoubleMethodA(c, m, a));
    default: return !(o ? e->CallObjectMethodA(o, m, a) : e->CallStaticObjectMethodA(c, m, a));
    }
}
inline void put(JNIEnv* e, jclass c, jobject o, jfieldID f, char t, int v) {
    switch (t) {
#define P(L, T, N) case L: o ? e->Set##N##Field(o, f, (T)v) : e->SetStatic##N##Field(c, f, (T)v); return;
    P('B', jbyte, Byte) P('C', jchar, Char) P('S', jshort, Short) P('I', jint, Int) P('J', jlong, Long) P('F', jfloat, Float) P('D', jdouble, Double)
#undef P
    case 'Z': o ? e->SetBooleanField(o, f, v & 1) : e->SetStaticBooleanField(c, f, v & 1); return;
    }
}
inline bool get(JNIEnv* e, jclass c, jobject o, jfieldID f, char t, int v) {
    switch (t) {
#define P(L, T, N) case L: return (T)v == (o ? e->Get##N##Field(o, f) : e->GetStatic##N##Field(c, f));
    P('B', jbyte, Byte) P('C', jchar, Char) P('S', jshort, Short) P('I', jint, Int) P('J', jlong, Long) P('F', jfloat, Float) P('D', jdouble, Double)
#undef P
    case 'Z': return (v & 1) == (o ? e->GetBooleanField(o, f) : e->GetStaticBooleanField(c, f));
    default: return !(o ? e->GetObjectField(o, f) : e->GetStaticObjectField(c, f));
    }
}
template<class Classes> void run(JNIEnv* e, Classes& all, const char* file) {
    std::ifstream in(file); std::string line; std::set<std::string> classes, missing, extra, wrong; std::vector<Member> ms; std::set<std::string> exp;
    while (std::getline(in, line)) {
        if (line[1] != ':') { classes.insert(line); continue; }
        auto p = split(line, ':', 4); ms.push_back({p[0][0], p[1], p[2], p[3]});
        bool st = p[0] == "s" || p[0] == "i" || p[0] == "g"; exp.insert(p[1] + (p[0] == "f" || p[0] == "g" ? " F " : " M ") + (st ? "1 " : "0 ") + p[2] + " " + p[3]);
    }
    std::map<std::string, jclass> cl; std::map<std::string, jobject> objs;
    for (auto& c : classes) { auto x = e->FindClass(c.data()); if (!x) missing.insert(c); else cl[c] = x; }
    auto zero = std::vector<jvalue>(16); for (auto& z : zero) z.j = 0;
    std::map<std::string, bool> hasctor;
    for (auto& m : ms) if (m.k == 'i') hasctor[m.c] = true;
    for (auto& c : cl) if (!hasctor[c.first]) { auto i = all[c.first]->Instantiate; if (i) { auto o = i(jnivm::ENV::FromJNIEnv(e)); objs[c.first] = e->NewGlobalRef((jobject)o.get()); } }
    for (auto& m : ms) {
        if (m.k != 'i' || !cl.count(m.c)) continue;
        auto id = e->GetMethodID(cl[m.c], "<init>", (m.s.substr(0, m.s.find(')') + 1) + "V").data()); auto key = std::string("i:") + m.c + ":<init>:" + m.s;
        if (!id) { missing.insert(key); continue; }
        auto o = e->NewObjectA(cl[m.c], id, zero.data());
        if (!o || e->ExceptionCheck() || e->GetObjectClass(o) != cl[m.c]) { wrong.insert(key + " creates no object of the class"); e->ExceptionClear(); }
        else if (!objs.count(m.c)) objs[m.c] = e->NewGlobalRef(o);
    }
    int v = 0; std::vector<std::pair<Member*, std::pair<jfieldID, int>>> fs;
    for (auto& m : ms) {
        if (m.k == 'i' || !cl.count(m.c)) continue;
        auto key = std::string(1, m.k) + ":" + m.c + ":" + m.n + ":" + m.s; auto c = cl[m.c];
        if (m.k == 'm' || m.k == 's') {
            auto id = m.k == 'm' ? e->GetMethodID(c, m.n.data(), m.s.data()) : e->GetStaticMethodID(c, m.n.data(), m.s.data());
            if (!id) { missing.insert(key); continue; }
            jobject o = m.k == 'm' ? objs[m.c] : nullptr; if (m.k == 'm' && !o) { wrong.insert(key + " no object"); continue; }
            auto r = m.s[m.s.find(')') + 1];
            if (!value(e, c, o, id, r, zero.data()) || e->ExceptionCheck()) { wrong.insert(key + " does not return zero"); e->ExceptionClear(); }
        } else {
            auto id = m.k == 'f' ? e->GetFieldID(c, m.n.data(), m.s.data()) : e->GetStaticFieldID(c, m.n.data(), m.s.data());
            if (!id) { missing.insert(key); continue; }
            if (m.k == 'f' && !objs[m.c]) { wrong.insert(key + " no object"); continue; }
            put(e, c, m.k == 'f' ? objs[m.c] : nullptr, id, m.s[0], ++v); fs.push_back({&m, {id, v}});
        }
    }
    for (auto& f : fs) { auto& m = *f.first; if (!get(e, cl[m.c], m.k == 'f' ? objs[m.c] : nullptr, f.second.first, m.s[0], f.second.second)) wrong.insert(m.c + ":" + m.n + " does not keep its value"); }
    static const std::set<std::string> sys = {"java/lang/Object", "java/lang/String", "java/lang/Class", "java/nio/ByteBuffer", "java/lang/Throwable", "java/lang/reflect/Method", "java/lang/reflect/Field", "java/lang/ref/WeakReference", "internal/lang/Global"};
    for (auto& c : all) {
        if (c.first[0] == '[' || sys.count(c.first)) continue;
        if (!classes.count(c.first)) { extra.insert(c.first); continue; }
        for (auto& m : c.second->methods) {
            auto h = c.first + " M " + (m->_static ? "1 " : "0 ") + m->name + " ";
            if (!exp.count(h + m->signature) && !exp.count(h + stripped(m->signature))) extra.insert(h + m->signature);
        }
        for (auto& f : c.second->fields) { auto h = c.first + " F " + (f->_static ? "1 " : "0 ") + f->name + " " + f->type; if (!exp.count(h)) extra.insert(h); }
    }
    auto list = [](const std::set<std::string>& s) { std::string r = "["; for (auto& x : s) { if (r.size() > 1) r += ","; r += "\"" + x + "\""; } return r + "]"; };
    std::printf("\n@@{\"error\":\"\",\"missing\":%s,\"extra\":%s,\"wrong\":%s}\n", list(missing).data(), list(extra).data(), list(wrong).data());
}
}
