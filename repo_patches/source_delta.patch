From 005cd1252fde75a3a11508cb7a7405f48d030fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 01/28] fix: treat weak references to destroyed objects as null
 in GetObjectClass and IsInstanceOf

---
 src/jnivm/vm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..53e9a7c 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -239,10 +239,12 @@ jobject AllocObject(JNIEnv *env, jclass cl) {
 };
 
 jclass GetObjectClass(JNIEnv *env, jobject jo) {
-	return jo ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
+	// A weak reference to a destroyed object behaves like null
+	auto obj = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo);
+	return obj ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), obj->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
 };
 jboolean IsInstanceOf(JNIEnv *env, jobject jo, jclass cl) {
-	return jo && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
+	return JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo) && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
 };
 
 #include "internal/method.h"
-- 
2.43.0


From 603e25358fec6510e6fb37f4dcf53c04910e9613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 02/28] fix: PopLocalFrame released objects while modifying the
 local frame

---
 src/jnivm/vm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 53e9a7c..8369fb6 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -136,8 +136,10 @@ jobject PopLocalFrame(JNIEnv * env, jobject result) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	// save reference on stack
 	auto res = JNITypes<std::shared_ptr<Object>>::JNICast(&nenv, result);
-	// Clear current Frame and move to freelist
-	nenv.localframe.front().clear();
+	// Empty current Frame and move to freelist, the references are released once the frames are consistent again:
+	// destructors of released objects can create new local references
+	std::vector<std::shared_ptr<Object>> released;
+	released.swap(nenv.localframe.front());
 	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
 	if(nenv.localframe.empty()) {
 		LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
-- 
2.43.0


From c4ed583f73aa151390fc0eb591856e51d0031f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 03/28] fix: DetachCurrentThread ran destructors of released
 objects with the vm locked

---
 src/jnivm/vm.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 8369fb6..6af06ff 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -491,11 +491,23 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
-				auto fe = nvm.jnienvs.end();
-				auto f = nvm.jnienvs.find(pthread_self());
-				if(f != fe) {
-					nvm.jnienvs.erase(f);
+				std::shared_ptr<ENV> nenv;
+				{
+					std::lock_guard<std::mutex> lock(nvm.mtx);
+					auto f = nvm.jnienvs.find(pthread_self());
+					if(f != nvm.jnienvs.end()) {
+						nenv = f->second;
+					}
+				}
+				if(nenv) {
+					// Release the objects of this thread while it is still attached and without holding the lock,
+					// destructors of released objects can call back into the vm
+					nenv->current_exception = nullptr;
+					std::forward_list<std::vector<std::shared_ptr<Object>>> released({{}});
+					released.swap(nenv->localframe);
+					released.clear();
+					std::lock_guard<std::mutex> lock(nvm.mtx);
+					nvm.jnienvs.erase(pthread_self());
 				}
 #endif
 				return JNI_OK;
-- 
2.43.0


From c4f71a16aa66acd071835b05acbae79079d978ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 04/28] fix: class of an object returned through a base type
 was the static type's class

---
 include/jnivm/jnitypes.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 473101e..5e17439 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -302,7 +302,10 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
     if(obj) {
         auto clazz = obj->clazz.lock();
         if(!clazz) {
-            obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+            // The class of an object is the class of it's dynamic type, p might just be a pointer to a base type
+            auto& o = *obj;
+            auto r = env->GetVM()->typecheck.find(typeid(o));
+            obj->clazz = r != env->GetVM()->typecheck.end() ? r->second : JNITypesObjectBase<Y, B>::GetClass(env);
         }
         auto ref = (B)obj.get();
         env->localframe.front().push_back(std::move(obj));
-- 
2.43.0


From 09851d94c021107e9fd55723f21e7e72f9e057e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:55 +0000
Subject: [PATCH 05/28] fix: missing string include broke builds with
 JNIVM_ENABLE_DEBUG=OFF

---
 include/jnivm/object.h | 1 +
 include/jnivm/vm.h     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/jnivm/object.h b/include/jnivm/object.h
index b0a2c41..cd65eae 100644
--- a/include/jnivm/object.h
+++ b/include/jnivm/object.h
@@ -1,6 +1,7 @@
 #pragma once
 #include <memory>
 #include <mutex>
+#include <string>
 #include <vector>
 #include <unordered_map>
 #include <typeindex>
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index 0e8a3e3..0125986 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -2,6 +2,7 @@
 #define JNIVM_VM_H_1
 #include <memory>
 #include <mutex>
+#include <string>
 #include <vector>
 #include <unordered_map>
 #include <typeindex>
-- 
2.43.0


From 7d93da8abe58748617bc5a81dd80ae8bec2747e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 06/28] fix: virtual calls ignored implementations of
 intermediate classes

---
 src/jnivm/internal/method.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..9e26d09 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -179,13 +179,22 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
     }
 }
 
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+// Searches an implementation of mid in cl and then in it's baseclasses, in the same order as GetMethodID
+static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
+    if(!r && cl->baseclasses) {
+        for(auto&& base : cl->baseclasses(env)) {
+            if(base && (r = findOverload(env, base.get(), mid))) {
+                break;
+            }
+        }
     }
+    return r;
+}
+
+static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+    auto r = findOverload(env, cl, mid);
+    return r ? r : mid;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -196,9 +205,12 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
-    if (mid && mid->nativehandle) {
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
+    std::shared_ptr<Class> cl;
+    if (mid && obj) {
+        cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         mid = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
+    }
+    if (mid && mid->nativehandle) {
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
@@ -215,7 +227,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         LOG("JNIVM", "Call Unknown Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
-- 
2.43.0


From 3d3aeab3affb88a3dc80128856cf7d1d2198e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 07/28] fix: nonvirtual calls crashed if the named class only
 inherits the method

---
 src/jnivm/internal/method.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 9e26d09..3258ca5 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -180,11 +180,11 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
 }
 
 // Searches an implementation of mid in cl and then in it's baseclasses, in the same order as GetMethodID
-static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+static Method* findInherited(jnivm::ENV *env, Class*cl, Method*mid) {
     auto r = findNonVirtualOverload(cl, mid);
     if(!r && cl->baseclasses) {
         for(auto&& base : cl->baseclasses(env)) {
-            if(base && (r = findOverload(env, base.get(), mid))) {
+            if(base && (r = findInherited(env, base.get(), mid))) {
                 break;
             }
         }
@@ -192,8 +192,9 @@ static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     return r;
 }
 
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
-    auto r = findOverload(env, cl, mid);
+// The method which runs for mid if cl is the class of the receiver, or the class named by a nonvirtual call
+static Method* findImplementation(jnivm::ENV *env, Class*cl, Method*mid) {
+    auto r = findInherited(env, cl, mid);
     return r ? r : mid;
 }
 
@@ -208,7 +209,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     std::shared_ptr<Class> cl;
     if (mid && obj) {
         cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
-        mid = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
+        mid = findImplementation(ENV::FromJNIEnv(env), cl.get(), mid);
     }
     if (mid && mid->nativehandle) {
 #ifdef JNI_TRACE
@@ -269,12 +270,14 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
+    auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    if (mid) {
+        mid = findImplementation(ENV::FromJNIEnv(env), clz.get(), mid);
+    }
     if (mid && mid->nativehandle) {
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl); 
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
@@ -288,7 +291,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
         LOG("JNIVM", "Call Unknown NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
-- 
2.43.0


From 06f0fb625205b37d2e51037e1052f42056c4c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 08/28] fix: exceptions without a native exception crash
 ExceptionDescribe and native-side invocation

---
 include/jnivm/method.h | 4 ++++
 src/jnivm/vm.cpp       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index bbba0f7..d7b3f60 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -138,6 +138,10 @@ template<class T, class... param> jvalue jnivm::Method::j2invoke(JNIEnv &env, T
         ret = jinvoke(*ENV::FromJNIEnv(&env), cl, args);
     }
     if((ENV::FromJNIEnv(&env))->current_exception) {
+        if(!(ENV::FromJNIEnv(&env))->current_exception->except) {
+            // A throwable object without a native exception
+            throw std::runtime_error("Pending Java Exception");
+        }
         std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);
     }
     return ret;
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 6af06ff..c23501a 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -99,6 +99,11 @@ jthrowable ExceptionOccurred(JNIEnv * env) {
 };
 void ExceptionDescribe(JNIEnv *env) {
 	if((ENV::FromJNIEnv(env))->current_exception) {
+		if(!(ENV::FromJNIEnv(env))->current_exception->except) {
+			// A throwable object without a native exception
+			LOG("JNIVM", "Exception without Message was thrown");
+			return;
+		}
 		try {
 			std::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);
 		} catch (const std::exception& ex) {
-- 
2.43.0


From 85626c713dd809bbaa4295195b883eb812a8231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 09/28] fix: new primitive arrays leaked their initial storage

---
 src/jnivm/internal/array.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..7d8efb2 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -1,4 +1,5 @@
 #include <jnivm/class.h>
+#include <algorithm>
 #include "array.hpp"
 
 using namespace jnivm;
@@ -28,7 +29,9 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    // The storage of the array is uninitialized, new java arrays are zeroed
+    std::fill_n(arr->getArray(), length, T());
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From 3fc806b7c44ae7d388f94f3f07712da77fced494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 10/28] fix: arrays of classes more than one level below Object
 stored and accepted elements as base class pointers

---
 include/jnivm/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..60e912d 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -242,15 +242,16 @@ namespace jnivm {
         };
 
         template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
+            // The elements are pointers to the element type of the whole array, which can be a class derived from Z
             virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
+                return dynamic_cast<const Array<Z>&>(*this).Get(i, array_type_t<Z>{});
             }
             virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                 std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                 if(val && !nval) {
                     throw std::runtime_error("Class Type Exception");
                 }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
+                dynamic_cast<Array<Z>&>(*this).Set(i, nval);
             }
         };
 
-- 
2.43.0


From 450274c8034cac7736097f8f2336cce75682b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:33 +0000
Subject: [PATCH 11/28] fix: NewObjectArray stored global and weak references
 instead of the object they name

---
 src/jnivm/internal/array.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 7d8efb2..a11fd58 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -14,9 +14,11 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     // auto arr = std::make_shared<Array<Object>>(new std::shared_ptr<Object>[length], length);
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
-    if(init) {
+    // The elements are the object itself, not the global or weak reference which names it
+    auto element = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
+    if(element) {
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = element;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From 2e13868a630962c72ba598d8fd64f72c57145250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:59 +0000
Subject: [PATCH 12/28] fix: registering a native function again had no effect

---
 src/jnivm/vm.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index c23501a..fa8bd7c 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -275,6 +275,15 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
+			// Registering a function again replaces the previous one
+			auto ccl = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](std::shared_ptr<Method> &m) {
+				return m->native && m->name == method->name && m->signature == method->signature;
+			});
+			if(ccl != clazz->methods.end()) {
+				(*ccl)->native = method->fnPtr;
+				method++;
+				continue;
+			}
 			auto m = std::make_shared<Method>();
 			m->name = method->name;
 			m->signature = method->signature;
-- 
2.43.0


From 1f5461de390ec5e0114b73f3fcd21d0441da9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 13/28] fix: hooks of methods which are also registered as
 native function were attached to the native function

---
 include/jnivm/hookManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index e489f96..5c2e47f 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -49,7 +49,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
@@ -70,7 +70,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
-- 
2.43.0


From ae190daf5427f91d32e0c3f88a041f6faedd72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:31 +0000
Subject: [PATCH 14/28] fix: placeholders created by lenient lookups hid
 registered native functions

---
 src/fake-jni/method.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fake-jni/method.cpp b/src/fake-jni/method.cpp
index 899a9d6..639f3a5 100644
--- a/src/fake-jni/method.cpp
+++ b/src/fake-jni/method.cpp
@@ -6,8 +6,12 @@ using namespace jnivm;
 MethodProxy Class::getMethod(const char *sig, const char *name) {
     jmethodID _member = GetMethodID<false, true, false, false>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig);
     jmethodID _static = GetMethodID<true, true, false, false>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig);
-    if(!_member && !_static) {
-        return { nullptr, nullptr, GetMethodID<false, true, true>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig)};
+    // Placeholders of unimplemented methods don't hide a registered native function
+    if(!(_member && ((Method*)_member)->nativehandle) && !(_static && ((Method*)_static)->nativehandle)) {
+        jmethodID _native = GetMethodID<false, true, true>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig);
+        if(_native || (!_member && !_static)) {
+            return { nullptr, nullptr, _native };
+        }
     }
     return { _member, _static, nullptr };
 }
\ No newline at end of file
-- 
2.43.0


From 6afacbf0b0cdc648e9f68211ff975e5380f2eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 15/28] fix: attaching an attached library again ran its load
 and unload entry points again

---
 include/fake-jni/fake-jni.h | 3 +++
 src/fake-jni/fake-jni.cpp   | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 54707e1..9c75381 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -64,6 +64,9 @@ namespace FakeJni {
         public:
             libinst(const std::string& rpath, JavaVM* javaVM, LibraryOptions loptions);
             ~libinst();
+            bool isOpen() const {
+                return handle != nullptr;
+            }
         };
         std::unordered_map<std::string, std::unique_ptr<libinst>> libraries;
         // JNIInvokeInterface oldinterface;
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a06bc77..d7a2489 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -88,6 +88,14 @@ FakeJni::Jvm::libinst::~libinst() {
 }
 
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
+	auto lib = libraries.find(rpath);
+	if(lib != libraries.end()) {
+		// Already attached, a library which could not be opened before is tried again
+		if(lib->second->isOpen()) {
+			return;
+		}
+		libraries.erase(lib);
+	}
 	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
 }
 
-- 
2.43.0


From cfb52b5f0f0022fa9c896e5e556b34f599476899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 16/28] fix: createMainMethod dereferenced a null class

---
 src/fake-jni/fake-jni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index d7a2489..ffff564 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -190,12 +190,12 @@ jnivm::Class &jnivm::Object::getClass() {
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
+    std::shared_ptr<JClass> createMainMethod = jnivm::VM::FromJavaVM(&jvm)->GetEnv()->GetClass("fakejni/impl/createMainMethod");
     createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", std::move(callback));
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (FakeJni::JArray<FakeJni::JString>* args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
+    std::shared_ptr<JClass> createMainMethod = jnivm::VM::FromJavaVM(&jvm)->GetEnv()->GetClass("fakejni/impl/createMainMethod");
     createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
         callback(args.get());
     });
-- 
2.43.0


From c4cf5e2b276325333c83060730c6964062fea527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:44 +0000
Subject: [PATCH 17/28] fix: reflected methods and fields had no class and
 could not be converted back

---
 src/jnivm/vm.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index fa8bd7c..7b6d160 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -32,23 +32,17 @@ jclass FindClass(JNIEnv *env, const char *name) {
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
-	} else {
-		return nullptr;
-	}
+	// obj can also be a global or weak reference
+	return (jmethodID) dynamic_cast<Method*>(JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj).get());
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
-	} else {
-		return nullptr;
-	}
+	// obj can also be a global or weak reference
+	return (jfieldID) dynamic_cast<Field*>(JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj).get());
 };
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
 	if(c && method && method->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) method);
+		return JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Method>(method->shared_from_this(), method));
 	}
 	return 0;
 };
@@ -75,7 +69,7 @@ jboolean IsAssignableFrom(JNIEnv *env, jclass c1, jclass c2) {
 jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic) {
 	auto field = (Field*)fid;
 	if(c && field && field->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) field);
+		return JNITypes<std::shared_ptr<Field>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Field>(field->shared_from_this(), field));
 	}
 	return 0;
 };
-- 
2.43.0


From a2c923b13290f26fab7b1b8ea6a9585a47b541f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 18/28] fix: constructors could not be reflected

---
 src/jnivm/vm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 7b6d160..6ec460c 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -41,7 +41,8 @@ jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 };
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
-	if(c && method && method->_static == (bool)isStatic) {
+	// Constructors are implemented by static functions, but are not static
+	if(c && method && (method->_static == (bool)isStatic || (!isStatic && method->name == "<init>"))) {
 		return JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Method>(method->shared_from_this(), method));
 	}
 	return 0;
-- 
2.43.0


From 0171a63ed26e0f41bf869dd699862554d3688365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:44 +0000
Subject: [PATCH 19/28] fix: GetDirectBufferAddress and GetDirectBufferCapacity
 crashed for null and weak references to destroyed buffers

---
 src/jnivm/internal/bytebuffer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/bytebuffer.cpp b/src/jnivm/internal/bytebuffer.cpp
index e4c0685..dbd7503 100644
--- a/src/jnivm/internal/bytebuffer.cpp
+++ b/src/jnivm/internal/bytebuffer.cpp
@@ -8,9 +8,15 @@ using namespace jnivm;
 jobject jnivm::NewDirectByteBuffer(JNIEnv *env, void *buffer, jlong capacity) {
     return JNITypes<std::shared_ptr<ByteBuffer>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<ByteBuffer>(buffer, capacity));
 }
+// null if the object isn't a direct buffer
+static std::shared_ptr<ByteBuffer> GetDirectBuffer(JNIEnv *env, jobject obj) {
+    return std::dynamic_pointer_cast<ByteBuffer>(JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj));
+}
 void *jnivm::GetDirectBufferAddress(JNIEnv *env, jobject bytebuffer) {
-    return JNITypes<std::shared_ptr<ByteBuffer>>::JNICast(ENV::FromJNIEnv(env), bytebuffer)->buffer;
+    auto direct = GetDirectBuffer(env, bytebuffer);
+    return direct ? direct->buffer : nullptr;
 }
 jlong jnivm::GetDirectBufferCapacity(JNIEnv *env, jobject bytebuffer) {
-    return JNITypes<std::shared_ptr<ByteBuffer>>::JNICast(ENV::FromJNIEnv(env), bytebuffer)->capacity;
+    auto direct = GetDirectBuffer(env, bytebuffer);
+    return direct ? direct->capacity : -1;
 }
\ No newline at end of file
-- 
2.43.0


From 6693d429ddaa01e7a2b634ff5c2749c63d21c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 20/28] fix: default return values of array types were wrong,
 missing or crashed

---
 src/jnivm/internal/method.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 3258ca5..04e3aa4 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -99,6 +99,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
             switch (signature[off + 2])
             {
+            case 'Z':
+                return env->GetJNIEnv()->NewBooleanArray(0);
             case 'B':
                 return env->GetJNIEnv()->NewByteArray(0);
             case 'S':
@@ -114,8 +116,11 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
             case 'D':
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
-            case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+            case '[': {
+                // FindClass fails for unregistered classes in strict mode
+                auto element = env->GetClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]);
+                return env->GetJNIEnv()->NewObjectArray(0, (jclass)element.get(), nullptr);
+            }
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From 9c94854d19786d15a4ad0b232280660f6113afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:47 +0000
Subject: [PATCH 21/28] fix: classes were created twice or lost when threads
 resolved classes concurrently

---
 include/jnivm/vm.h               | 2 ++
 src/jnivm/internal/findclass.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index 0125986..3880b88 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -62,6 +62,8 @@ namespace jnivm {
         std::unordered_map<std::string, std::shared_ptr<Class>> classes;
 
         std::mutex mtx;
+        // Protects the collections of classes, can be locked while mtx is held
+        std::mutex classesmtx;
         // Stores all global references
         std::vector<std::shared_ptr<Object>> globals;
         // Stores all classes by c++ typeid
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..276fbec 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -2,6 +2,7 @@
 #include <jnivm/env.h>
 #include <jnivm/jnitypes.h>
 #include <cstring>
+#include <mutex>
 #include "log.h"
 
 std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *name, bool returnZero, bool trace) {
@@ -13,6 +14,8 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 		LOG("JNIVM", "FindClass %s", name);
 	}
 #endif
+	// Classes are also looked up by threads which do not hold vm->mtx
+	std::lock_guard<std::mutex> lock(vm->classesmtx);
 	std::shared_ptr<Class> curc = nullptr;
 #ifdef JNI_DEBUG
 	if(name[0] != '[') {
-- 
2.43.0


From db31bd5f6375429047ffdde0c9f16a49794b1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:18 +0000
Subject: [PATCH 22/28] fix: concurrent GetMethodID calls created a method
 twice or corrupted the methods of a class

---
 src/jnivm/internal/method.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 04e3aa4..202020f 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -60,15 +60,23 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return nullptr;
         }
         next = std::make_shared<Method>();
+        next->name = std::move(sname);
+        next->signature = std::move(ssig);
+        next->_static = isStatic;
         if(cur) {
+            std::lock_guard<std::mutex> lock(cur->mtx);
+            // Another thread can have created it, since the lock was released to search the baseclasses
+            auto ccl = std::find_if(cur->methods.begin(), cur->methods.end(), [&next](std::shared_ptr<Method> &m) {
+                return m->_static == isStatic && AllowNative == (bool)m->native && m->name == next->name && m->signature == next->signature;
+            });
+            if (ccl != cur->methods.end()) {
+                return (jmethodID)ccl->get();
+            }
             cur->methods.push_back(next);
         } else {
             // For Debugging purposes without valid parent class
             JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
         }
-        next->name = std::move(sname);
-        next->signature = std::move(ssig);
-        next->_static = isStatic;
 #ifdef JNI_DEBUG
         Declare(env, next->signature.data());
 #endif
@@ -174,6 +182,7 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
     if(!cl) {
         return mid;
     }
+    std::lock_guard<std::mutex> lock(cl->mtx);
     auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
         return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
     });
-- 
2.43.0


From 335832455a3f29a4d9abc2d0eacda0f1b17bb2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 23/28] fix: VM::GetEnv read the environments of the vm while
 other threads attach or detach

---
 src/jnivm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 6ec460c..3c37eeb 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -570,6 +570,8 @@ JNIEnv *VM::GetJNIEnv() {
 
 const std::shared_ptr<ENV>& VM::GetEnv() {
 #ifdef EnableJNIVMGC
+	// Other threads can attach or detach meanwhile
+	std::lock_guard<std::mutex> lock(mtx);
 	return jnienvs[pthread_self()];
 #else
 	return jnienvs.begin()->second;
-- 
2.43.0


From 5830e22ebfa2409d93deb87fa01bfd2dc595b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 24/28] fix: generated stubs which name WeakReference did not
 compile

---
 include/jnivm/javatypes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/jnivm/javatypes.h b/include/jnivm/javatypes.h
index 125d7b7..95a8aa8 100644
--- a/include/jnivm/javatypes.h
+++ b/include/jnivm/javatypes.h
@@ -5,6 +5,7 @@
 #include "class.h"
 #include "bytebuffer.h"
 #include "throwable.h"
+#include "weak.h"
 
 namespace jnivm {
     namespace java {
@@ -18,6 +19,9 @@ namespace jnivm {
                 using Method = jnivm::Method;
                 using Field = jnivm::Field;
             }
+            namespace ref {
+                using WeakReference = jnivm::Weak;
+            }
         }
         namespace nio {
             using ByteBuffer = jnivm::ByteBuffer;
-- 
2.43.0


From 31b368b0c198c4a0f5bd3fb7152653ac69dbbdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 25/28] fix: generated bindings of overloaded methods were
 ambiguous

---
 src/jnivm/internal/codegen/method.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/codegen/method.cpp b/src/jnivm/internal/codegen/method.cpp
index 863f0c1..bf6d9dd 100644
--- a/src/jnivm/internal/codegen/method.cpp
+++ b/src/jnivm/internal/codegen/method.cpp
@@ -158,7 +158,15 @@ std::string Method::GenerateJNIBinding(std::string scope, const std::string &cna
 			ss << ");}";
 			
 		} else {
-			ss << "&" << scope;
+			// Name the type of the function, otherwise overloads are ambiguous
+			ss << "(" << rettype << " (" << (_static ? "" : cl + "::") << "*)(jnivm::ENV*";
+			if (_static) {
+				ss << ", jnivm::Class*";
+			}
+			for (auto &&parameter : parameters) {
+				ss << ", " << parameter;
+			}
+			ss << "))&" << scope;
 		}
 		ss << ");\n";
 	} else {
@@ -169,7 +177,11 @@ std::string Method::GenerateJNIBinding(std::string scope, const std::string &cna
 			}
 			ss << ">{}},\n";
 		} else {
-			ss << "{FakeJni::Function<&" << cname << "::" << name << ">{}, \"" << name << "\", FakeJni::JMethodID::PUBLIC";
+			ss << "{FakeJni::Function<(" << rettype << " (" << (_static ? "" : cname + "::") << "*)(";
+			for (size_t i = 0; i < parameters.size(); i++) {
+				ss << (i ? ", " : "") << parameters[i];
+			}
+			ss << "))&" << cname << "::" << name << ">{}, \"" << name << "\", FakeJni::JMethodID::PUBLIC";
 			if(_static) {
 				ss << " | FakeJni::JMethodID::STATIC";
 			}
-- 
2.43.0


From 4d5902b9bccb9b8309db1a64bb523bf3da0c8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:41 +0000
Subject: [PATCH 26/28] fix: attach libraries from load entry points

---
 src/fake-jni/fake-jni.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index ffff564..9f5093a 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -90,13 +90,20 @@ FakeJni::Jvm::libinst::~libinst() {
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
 	auto lib = libraries.find(rpath);
 	if(lib != libraries.end()) {
-		// Already attached, a library which could not be opened before is tried again
-		if(lib->second->isOpen()) {
+		// Already attached, or attached by its own load entry point. A library which could not be opened before is tried again
+		if(!lib->second || lib->second->isOpen()) {
 			return;
 		}
 		libraries.erase(lib);
 	}
-	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
+	libraries.insert({ rpath, nullptr });
+	try {
+		auto loaded = std::make_unique<libinst>(rpath, this, loptions);
+		libraries[rpath] = std::move(loaded);
+	} catch(...) {
+		libraries.erase(rpath);
+		throw;
+	}
 }
 
 void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &options) {
-- 
2.43.0


From 47fe6d9487a22c5c6fb9b0928f963d1ecd7124f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:13 +0000
Subject: [PATCH 27/28] fix: remove libraries from unload entry points of a VM
 that is destroyed

---
 include/fake-jni/fake-jni.h | 1 +
 src/fake-jni/fake-jni.cpp   | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 9c75381..179ea7c 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -75,6 +75,7 @@ namespace FakeJni {
         Jvm(bool skipInit, bool returnNull);
     public:
         Jvm();
+        ~Jvm();
 
         // compatibility stub
         void registerDefaultSignalHandler() {}
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index 9f5093a..4a41dbf 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -110,6 +110,14 @@ void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &op
 	libraries.erase(rpath);
 }
 
+FakeJni::Jvm::~Jvm() {
+	// Unload entry points can still attach and remove libraries
+	while(!libraries.empty()) {
+		auto lib = std::move(libraries.begin()->second);
+		libraries.erase(libraries.begin());
+	}
+}
+
 std::shared_ptr<FakeJni::JObject> FakeJni::Env::resolveReference(jobject obj) {
     return jnivm::JNITypes<std::shared_ptr<JObject>>::JNICast(this, obj);
 }
-- 
2.43.0


From ed3719c613e29740160f99f064309923fbe28e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:27 +0000
Subject: [PATCH 28/28] fix: hook a member again while its implementation runs

---
 src/jnivm/internal/field.cpp  |  8 ++++++--
 src/jnivm/internal/method.cpp | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index e2e44cd..c0b6a53 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -120,7 +120,9 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
         LOG("JNIVM", "Invoked Field Getter Class=`%s` Field=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", fid->name.data(), fid->type.data());
 #endif
-        return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        // the hooked function may hook its own field again
+        auto handle = fid->getnativehandle;
+        return Caller<std::is_same<O, jclass>::value>::template Get<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
@@ -149,7 +151,9 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
         jvalue val;
         memset(&val, 0, sizeof(val));
         memcpy(&val, &value, sizeof(T));
-        return Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        // the hooked function may hook its own field again
+        auto handle = fid->setnativehandle;
+        return Caller<std::is_same<O, jclass>::value>::template Set<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 202020f..61d0548 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -230,7 +230,9 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            // the hooked function may hook its own method again
+            auto handle = mid->nativehandle;
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -293,7 +295,9 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            // the hooked function may hook its own method again
+            auto handle = mid->nativehandle;
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -325,7 +329,9 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jclass _cl
         LOG("JNIVM", "Call Static Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
+            // the hooked function may hook its own method again
+            auto handle = mid->nativehandle;
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
-- 
2.43.0

