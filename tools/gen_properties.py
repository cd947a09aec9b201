#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

VM = "src/jnivm/vm.cpp"; MET = "src/jnivm/internal/method.cpp"; FLD = "src/jnivm/internal/field.cpp"
FC = "src/jnivm/internal/findclass.cpp"; TYP = "include/jnivm/jnitypes.h"; ARRH = "include/jnivm/array.h"
ARR = "src/jnivm/internal/array.cpp"; STR = "src/jnivm/internal/string.cpp"; SU = "src/jnivm/internal/stringUtil.cpp"
FJ = "src/fake-jni/fake-jni.cpp"; FJV = "src/fake-jni/jvm.cpp"; BAR = "src/baron/jvm.cpp"; HM = "include/jnivm/hookManager.h"
CLS = "include/jnivm/class.h"; WR = "include/jnivm/wrap.h"; VA = "src/jnivm/internal/jValuesfromValist.cpp"

p("C01", "Local references keep objects alive exactly as long as their scope",
  "Every object handed to native code as a local reference stays alive until that reference is deleted, the local frame that holds it is popped, or its thread detaches. When the last strong reference (local, global, array slot or native pointer) to an object is gone the object is destroyed at once: never earlier, and never kept beyond it. Popping a frame with a result moves exactly that result into the enclosing frame and drops everything else of the popped frame.",
  ["histories"], "All sequences of object creation, NewLocalRef, DeleteLocalRef, PushLocalFrame, PopLocalFrame with and without result, and native pointer drops, including nested frames and repeated references to one object.",
  "Tests create one or two references in one frame and check one destructor; nesting, duplicates, reuse of popped frames and unbalanced pops are histories they never reach.",
  [VM, TYP, "src/jnivm/env.cpp"], [("PushLocalFrame/PopLocalFrame/NewLocalRef/DeleteLocalRef", VM), ("ToJNIType adds every returned object to the current frame", TYP)],
  ["destructor of user classes", "return values of the reference functions", "GetObjectRefType"],
  [("frames", "stack of multisets of strong references, per thread", "include/jnivm/env.h localframe/freeframes")])
p("C02", "Global references pin, weak references never pin and never dangle",
  "A global reference keeps its object alive on every thread until it is deleted, whatever happens to local frames; a weak reference never keeps its object alive. Once the object is gone the weak reference behaves as null everywhere (comparison, conversion to a local or global reference, object array stores); before that every reference kind denotes the same object in every function that takes an object. The kind reported for a reference is the kind it was created as, and deleting one reference affects no other.",
  ["histories"], "All interleavings of creating, converting between (local, global, weak), comparing, using and deleting references to several objects.",
  "Tests convert each kind once; they never mix several handles to the same object, delete in different orders, or use weak references after collection in the other functions.",
  [VM, TYP, "include/jnivm/weak.h"], [("NewGlobalRef/DeleteGlobalRef/NewWeakGlobalRef/DeleteWeakGlobalRef", VM), ("UnpackJObject", TYP), ("IsSameObject, GetObjectRefType", VM)],
  ["destructor of user classes", "IsSameObject", "GetObjectRefType", "NewLocalRef/NewGlobalRef results"],
  [("globals", "list of global and weak wrappers", "include/jnivm/vm.h globals")])
p("C03", "Each attached thread has one environment of its own until it detaches",
  "Attaching a thread gives it an environment that no other thread has, attaching again returns the same one, and asking the VM for the environment of the current thread returns that same one. Detaching releases all local references and the pending exception of that thread and nothing of any other thread; a detached thread can attach again and starts empty. Attaching, detaching and releasing references on one thread never blocks or corrupts another thread, even when a released object's destructor calls back into the VM.",
  ["histories", "schedules"], "All orders of attach, detach, getenv, local and global reference and exception operations over several threads of one VM.",
  "Tests attach a thread once or not at all; no test detaches while other threads hold references, or re-attaches.",
  [VM, "src/jnivm/env.cpp"], [("AttachCurrentThread/DetachCurrentThread/GetEnv", VM), ("CreateEnv", VM)],
  ["JNIEnv pointers returned per thread", "destructors of user objects", "ExceptionCheck per thread"],
  [("jnienvs", "thread id to environment", "include/jnivm/vm.h")])
p("C04", "One name denotes one class; strict lookups never invent one",
  "Within a VM, every way of naming a class (lookup by name, lookup of a nested name, registration of a native type, mention in a member signature, creation of an array of it) yields the same class object for the same name and different class objects for different names, for as long as the VM lives; the class reports the name it was looked up with. In strict mode a lookup of a name nobody registered or mentioned returns null and leaves no trace, so that later lookups still fail; in lenient mode it creates the class exactly once.",
  ["histories", "configurations"], "All sequences of class lookups over a set of packaged, nested and array names, in strict and lenient VMs and in every build configuration.",
  "Tests look up a handful of unrelated names once; prefixes, nested names, repeated failures and mixed strict/lenient histories are not covered.",
  [FC, VM, "include/jnivm/env.h"], [("InternalFindClass", FC), ("Declare", FC), ("ENV::GetClass<T>", "include/jnivm/env.h")],
  ["IsSameObject on the returned classes", "null results", "Class::getName"],
  [("classes", "name to class", "include/jnivm/vm.h classes"), ("np", "namespace tree", "include/jnivm/vm.h np")])
p("C05", "Method and field ids identify exactly one member",
  "A lookup with the same class, name, signature and staticness always returns the same id (until such a member is added to a class that is searched earlier), and ids of different members differ; the member is searched in the class first and then in its base classes, depth first in declaration order. Static and instance members never answer for each other, a constructor is never inherited, and name or signature must match completely. In strict mode an unknown member gives null every time; in lenient mode an unknown member is created once, in the class that was asked.",
  ["histories", "configurations"], "All sequences of member registrations and lookups over small class hierarchies with names and signatures that are near misses of each other, in strict and lenient mode.",
  "Tests look up one existing and one missing member; shadowing between base classes, hook-after-lookup orders and static/instance clashes are not covered.",
  [MET, FLD, HM], [("GetMethodID/GetStaticMethodID", MET), ("GetFieldID/GetStaticFieldID", FLD), ("FunctionBase::install / PropertyBase::install", HM)],
  ["jmethodID/jfieldID equality", "which implementation a call through the id reaches"],
  [("methods, fields", "members per class", "include/jnivm/class.h")])
p("C06", "Assignability, instanceof and superclass follow the declared hierarchy",
  "A class is assignable to another exactly when it is that class or one of its transitively declared base classes or interfaces is; an object is an instance of a class exactly when its class is assignable to it, and null is an instance of nothing. The superclass is the first declared base. The class of an object is the class its native type was registered with, through every reference kind and however the object reached native code.",
  ["inputs", "programs"], "All pairs over hierarchies with chains, diamonds, several interfaces, unrelated, fabricated and array classes, and objects reached through returns, fields, arrays and references.",
  "Tests check one diamond and a few pairs; most pairs and all object sources are not covered.",
  [VM, "include/jnivm/extends.h", TYP, "src/jnivm/object.cpp"], [("HasBaseClass, IsAssignableFrom, IsInstanceOf, GetSuperclass, GetObjectClass", VM), ("Extends::GetBaseClasses", "include/jnivm/extends.h")],
  ["IsAssignableFrom", "IsInstanceOf", "GetSuperclass", "GetObjectClass"])
p("C07", "Calls dispatch virtually, non-virtually or statically as requested",
  "A virtual call runs the implementation that is found first for the name and signature in the receiver's class and then in its base classes, depth first in declaration order, whichever class the method id was taken from; a non-virtual call runs the implementation the named class provides or inherits, whatever the receiver's class; a static call runs the static implementation found from the class. Exactly one implementation runs per call, once, on the given receiver.",
  ["programs", "histories"], "All combinations of hierarchy shape, set of classes that implement the method, class the id came from, class named in a non-virtual call, receiver class and receiver reference kind, including implementations added or replaced after the id was taken.",
  "The existing test has two classes that both implement the method; overrides in an intermediate class and inherited non-virtual targets are not covered.",
  [MET], [("findVirtualOverload, findNonVirtualOverload, MDispatchBase2::CallMethod", MET)],
  ["implementation tag recorded by the called function", "receiver identity"])
p("C08", "Arguments, receivers and results arrive unchanged in every call form",
  "For every method signature and every way of passing arguments (variadic, argument list, value array, and native-side invocation) the implementation receives exactly the argument values in order, together with the environment of the calling thread and the receiver or class it asks for, and the caller gets exactly the value returned. This holds for all primitive kinds at their extreme values, object and array references including null, and any number and order of parameters.",
  ["inputs", "programs"], "All signatures over the nine JNI type kinds up to a bounded arity, boundary values per kind, all call forms, static, virtual and non-virtual.",
  "Tests use about ten fixed signatures with small values, mostly through one call form.",
  [VA, MET, "src/jnivm/method.cpp", WR, "src/jnivm/internal/skipJNIType.cpp"], [("JValuesfromValist", VA), ("MDispatch::CallMethod", MET), ("Wrap/Obj", WR), ("Method::invoke", "include/jnivm/method.h")],
  ["values recorded by the called function", "return values"])
p("C09", "A pending exception is per thread, stays until cleared, and calls never throw",
  "A thread has a pending exception exactly if one was thrown on it (by Throw, by ThrowNew, or by a called implementation) since the last clear on it; the latest one thrown is the one reported, with its message, and other threads are unaffected. No exception of an implementation (function, method or constructor) leaves a JNI method call: the caller gets the default value instead. Native-side invocation reports a pending exception by rethrowing the original native exception.",
  ["histories", "fault_sequences"], "All sequences of Throw, ThrowNew, clear, occurred, describe, check, and calls (virtual, non-virtual, static, constructor, native invocation) whose implementation throws or not, over several threads.",
  "Tests throw once and clear once on one thread.",
  [VM, MET, "include/jnivm/method.h"], [("Throw/ThrowNew/ExceptionOccurred/ExceptionClear/ExceptionCheck", VM), ("catch blocks in MDispatchBase2::CallMethod", MET), ("j2invoke rethrow", "include/jnivm/method.h")],
  ["ExceptionCheck", "ExceptionOccurred identity", "C++ exceptions at the call site"],
  [("current_exception", "pending exception per thread", "include/jnivm/env.h")])
p("C10", "A field access reaches exactly the storage or accessor it is bound to",
  "Reading a bound field returns the value last written to that field of that object (or to that static field), by native code or by JNI, for every JNI type; writing changes that field of that object only. Instance fields of different objects, static fields, fields of different names or types, and inherited fields seen through derived classes stay distinct or shared exactly as declared. A field bound to accessor functions calls exactly that accessor, with the receiver and value given, and a field with only one direction bound ignores the other.",
  ["histories", "inputs"], "All interleavings of reads and writes through JNI and native code over several objects, types, static and instance fields, accessor forms and inheritance.",
  "Tests write and read one boolean and one string field.",
  [FLD, HM, WR], [("GetField/SetField", FLD), ("PropertyBase::install", HM), ("OldWrapper InstanceGet/InstanceSet/StaticGet/StaticSet", WR)],
  ["Get<Type>Field/GetStatic<Type>Field values", "native members"])
p("C11", "Strings convert between UTF-16 and modified UTF-8 without loss",
  "A string created from any UTF-16 sequence (including zero units and unpaired surrogates) has exactly those units again when read back in whole or by region, and its modified UTF-8 form is the one the JNI specification defines; a string created from well-formed modified UTF-8 returns those bytes. Lengths count UTF-16 units and bytes respectively, and every region read returns exactly the requested slice.",
  ["inputs"], "All UTF-16 unit values and short sequences over the encoding-length boundaries, all region bounds within the string.",
  "Tests use five literal strings and one region.",
  [STR, SU], [("JCharToUTF, UTFToJChar, UTFToJCharLength", SU), ("NewString, GetStringRegion, GetStringUTFRegion, GetStringLength", STR)],
  ["GetStringChars", "GetStringRegion", "GetStringUTFChars", "GetStringUTFRegion", "lengths"])
p("C12", "A primitive array is one fixed-length storage shared by all its views",
  "For every primitive element type a new array has the requested length and all-zero elements; element pointers, critical pointers, region reads, region writes and native access all see one and the same storage, so that the last write to an element through any of them is what every view reads. A region write changes exactly the elements of the region. Storage lives as long as the array and is released with it.",
  ["histories", "inputs"], "All sequences of region reads and writes, element and critical accesses and native accesses over the eight element types, lengths including zero, and all in-range regions.",
  "Tests cover one boolean array with one region.",
  [ARR, ARRH], [("NewArray, Get/SetArrayRegion, GetArrayElements", ARR), ("impl::Array", ARRH)],
  ["region contents", "element pointers", "GetArrayLength", "allocation balance"])
p("C13", "An object array stores exactly what was put in and keeps it alive",
  "A new object array has the requested length and every slot holds the initial value (or null); afterwards each slot reads back the object last stored in it, by JNI or native code and through every reference kind, and no other slot changes. The array keeps its elements alive until they are overwritten or the array dies. Arrays of a registered native type accept exactly its instances: any other object is rejected and the slot is unchanged, also when the array is used as an array of a base type. Arrays of arrays behave the same.",
  ["histories", "programs"], "All sequences of creation, stores and loads over element types in a hierarchy with base types and interfaces, arrays of arrays, several reference kinds and null.",
  "Tests store one element in one slot; covariance, rejected stores and lifetimes are not covered.",
  [ARR, ARRH, TYP], [("NewObjectArray, Get/SetObjectArrayElement", ARR), ("Array<Y,Z,false>::Set, ArrayBaseImpl", ARRH)],
  ["GetObjectArrayElement identity", "destructors of elements", "exceptions on rejected stores"])
p("C14", "An object monitor is owned by one thread at a time and is reentrant",
  "Between entering and the matching exit of an object's monitor no other thread is inside the monitor of the same object, through whichever reference kind either names it; the owner may enter again and must exit as often. Monitors of different objects are independent, and a waiting thread enters once the monitor becomes free.",
  ["schedules"], "All interleavings of enter and exit by several threads over several objects and reference kinds, with nesting.",
  "The existing test relies on sleeping and one interleaving.",
  [VM, "include/jnivm/object.h"], [("MonitorEnter/MonitorExit", VM), ("ObjectMutexWrapper", "include/jnivm/object.h")],
  ["order of completed enters and exits", "blocked threads"])
p("C15", "Registered natives are the ones called until replaced or unregistered",
  "After native functions are registered on a class, native-side lookup by name and signature finds exactly the function registered last for that name and signature, on that class or inherited by its subclasses, and invoking it passes environment, receiver and arguments unchanged. Unregistering removes all natives of that class and nothing else; hooked methods, which take precedence over natives of the same name and signature, and other classes are unaffected; placeholders made by lookups in a lenient VM do not hide natives.",
  ["histories"], "All sequences of register (several methods per call, repeated names, overloads), unregister, lookup and invoke over a small class hierarchy mixed with hooked methods.",
  "Tests register once and call once.",
  [VM, "src/fake-jni/method.cpp", "include/jnivm/method.h", MET], [("RegisterNatives/UnregisterNatives", VM), ("Class::getMethod", "src/fake-jni/method.cpp"), ("j2invoke", "include/jnivm/method.h")],
  ["function that runs and its arguments", "result of the native lookup"])
p("C16", "A library is loaded once, initialised once, and shut down once",
  "Attaching a library opens it and runs its load entry point exactly once per attachment, with the VM; attaching an already attached path again has no effect. Removing it, or destroying the VM, runs its unload entry point exactly once and then closes the handle exactly once; entry points run only on libraries that opened, statically linked libraries use their name-suffixed entry points, and removing an unknown path does nothing. A path that failed to open counts as not attached and can be attached again. Entry points can themselves attach and remove libraries: a library counts as attached from the moment its load entry point starts, and as removed from the moment its unload entry point starts.",
  ["histories", "fault_sequences"], "All sequences of attach, remove and VM destruction over several paths with injected failures of opening and missing entry points, nested through entry points.",
  "Tests attach one library each and remove it, with no failure and no repetition.",
  [FJ, "include/fake-jni/libraryoptions.h"], [("libinst constructor and destructor", FJ), ("attachLibrary/removeLibrary", FJ)],
  ["calls of the dlopen, dlsym, dlclose callbacks", "calls of the entry points"],
  [("libraries", "path to loaded instance", "include/fake-jni/fake-jni.h")])
p("C17", "Denied members and classes are never fabricated, others always are",
  "In the fabricating VM, a lookup of a class, method or field that exists always succeeds, denied or not; a lookup of one that does not exist fabricates it exactly when no deny rule matches it. A rule matches when each of its name, signature and class parts is empty or equal (to the class that is asked), and rules for methods, fields and classes do not affect each other. A lookup that fails makes nothing of its name exist (classes around it and classes named in a signature may come into existence).",
  ["histories", "configurations"], "All sets of deny rules with any combination of wildcard parts, mixed with direct lookups of existing and missing members, before and after fabrication or hooking.",
  "The existing test has a fixed set of rules and checks each once.",
  [BAR, "include/baron/baron.h"], [("isClassDenied/isMethodDenied/isFieldDenied", BAR), ("CreateEnv overrides", BAR)],
  ["null results of FindClass, GetMethodID, GetStaticMethodID, GetFieldID, GetStaticFieldID, findClass"],
  [("denyClasses, denyMethods, denyFields", "deny rules", "include/baron/baron.h")])
p("C18", "Scoped contexts attach, nest and detach threads exactly once",
  "Opening a scoped context on a thread that has no environment attaches it and closing that context detaches it; contexts opened while the thread is attached neither attach nor detach, so that after closing them the thread is in the state it was before, at any nesting depth. A scoped local frame releases exactly the local references created inside it. A thread that ends while attached is detached, and a VM cannot be entered twice by one thread.",
  ["histories", "schedules"], "All well-nested sequences of contexts, local frames, explicit attach and detach, object creation and thread exit, on several threads.",
  "Tests open one context on the main thread.",
  [FJ, "include/fake-jni/fake-jni.h", FJV], [("JniEnvContext, ThreadContext", FJ), ("LocalFrame", "include/fake-jni/fake-jni.h"), ("Jvm::CreateEnv", FJV)],
  ["current environment per thread", "destructors of user objects", "exceptions on misuse"],
  [("JniEnvContext::env", "environment of the current thread", "include/fake-jni/fake-jni.h")])
p("C19", "Generated stubs declare every referenced member once and rebind it",
  "The generated stub source declares every class, field and method that native code referenced exactly once, with its type, staticness and nesting, and declares nothing else; system classes are left out. The stubs compile against the library in either syntax, and after running the generated registration in a strict VM every referenced class, field and method is found again in strict mode under its original name, signature and staticness.",
  ["programs", "configurations"], "All sets of referenced classes (packaged, nested), fields and methods (overloads by parameters included) over all JNI types and array depths, in both code generation syntaxes, as far as C++ can declare them: no names that are C++ keywords, no methods that differ in their result type only, no field with the name of a method, no member or package with the name of its class, no classes nested in system classes.",
  "The test generates one fixed file and compiles it; it never checks that all members are there.",
  ["src/jnivm/internal/codegen/class.cpp", "src/jnivm/internal/codegen/method.cpp", "src/jnivm/internal/codegen/field.cpp", "src/jnivm/internal/codegen/namespace.cpp", "src/jnivm/internal/codegen/parseJNIType.cpp", "src/jnivm/internal/codegen/vm.cpp"],
  [("GenerateHeader/GenerateStubs/GenerateJNIBinding", "src/jnivm/internal/codegen"), ("ParseJNIType", "src/jnivm/internal/codegen/parseJNIType.cpp")],
  ["compiled stubs", "member lookup in a strict VM after binding"])
p("C20", "Concurrent use of one VM behaves like some sequential order",
  "When several attached threads look up classes and members, create, resolve and delete global and weak references, attach and detach, register natives and create arrays concurrently, every call returns what it would return in some sequential order of the calls. (A call that reads a weak reference may keep its object alive until it returns.) In particular concurrent lookups of one class or member agree on one result, no update is lost, and no thread crashes or blocks forever.",
  ["schedules"], "All sequentially consistent interleavings of small groups of concurrent JNI calls, at the granularity of memory accesses and locks of the library. Hooking members or registering native types while other threads use them, and calling natives while they are unregistered, are excluded.",
  "No existing test runs two threads against the VM except the monitor test.",
  [VM, FC, MET, FLD, TYP, "include/jnivm/env.h"], [("VM::mtx", "include/jnivm/vm.h"), ("Class::mtx", CLS)],
  ["results of all calls", "crashes and deadlocks"],
  [("classes, globals, jnienvs, methods, fields", "shared maps", "include/jnivm/vm.h, include/jnivm/class.h")])
p("C21", "Virtual machines and their function tables are independent",
  "Classes, members, references, environments and exceptions of one VM are invisible to any other VM in the process, and destroying one VM releases everything it held and leaves the others working. A function table hook or override installed on one VM or environment affects exactly that VM's environments created afterwards (or that environment), keeps the identity of its VM and environment resolvable, and an override that names a different owner is rejected without effect.",
  ["histories", "configurations"], "All sequences of creating, using and destroying up to three VMs of the different kinds, and installing hooks and overrides.",
  "Tests create one VM at a time.",
  [VM, "src/jnivm/env.cpp"], [("FromJavaVM/FromJNIEnv/reserved0", VM), ("OverrideJNIInvokeInterface/OverrideJNINativeInterface", VM), ("AddHook", "include/jnivm/vm.h")],
  ["lookups in each VM", "destructors on VM destruction", "GetJavaVM"])
p("C22", "Reflected members and direct buffers round-trip",
  "A method or field id converted to its reflected object and back gives the same id, for exactly the staticness it has (a constructor is not static); other combinations and other objects give null. A direct buffer returns exactly the address and capacity it was created with for as long as it lives, through every reference kind, and the VM never frees, reads or writes the memory; anything that is no direct buffer has address null and capacity -1.",
  ["inputs", "histories"], "All members of a class set with both staticness flags, reflected objects through every reference kind, and all buffer addresses and capacities including zero and large.",
  "Tests reflect one method and one field once; buffers are never tested.",
  [VM, "src/jnivm/internal/bytebuffer.cpp"], [("ToReflectedMethod/FromReflectedMethod/ToReflectedField/FromReflectedField", VM), ("NewDirectByteBuffer", "src/jnivm/internal/bytebuffer.cpp")],
  ["ids and addresses returned"])
p("C23", "Unimplemented members yield the configured default, never garbage",
  "Calling an id without an implementation, or reading a field without a binding, returns zero for primitives and, for reference types, null in the plain configuration; with non-null defaults enabled it returns a fresh object of exactly the declared type where one can be built (registered default-constructible type, empty array of the declared element type, or placeholder of an unregistered class) and null otherwise. Null ids and failed calls return the same defaults, and writing an unbound field has no effect.",
  ["inputs", "configurations"], "All return and field types (primitive, registered with and without default constructor, unregistered, arrays of each and nested), all call forms and accesses, both configurations.",
  "Tests run only with non-null defaults and check three array types and one object.",
  [MET, FLD], [("defaultVal", MET), ("MDispatchBase2::CallMethod fallback", MET), ("GetField fallback", FLD)],
  ["returned value, its class and length"])
p("C24", "Hooking a member replaces exactly that member; ids stay valid",
  "Hooking a name and signature again replaces the implementation that existing ids of that member reach, and hooking any other name, signature or staticness leaves them unchanged; an implementation that is running when its member is hooked again runs to its end unharmed. The JNI signature of a hook is the one its native parameter and return types declare, with leading environment, class and receiver parameters left out; a leading object parameter is taken as the receiver exactly when its type is the hooked class or the root object type.",
  ["programs", "histories"], "All sequences of hooking functions, lambdas, member functions, properties and accessors with every combination of leading environment, class and receiver parameters, over several names and classes.",
  "Tests hook each form once with a fresh name.",
  [CLS, HM, WR, TYP, "include/jnivm/function.h"], [("HookManagerHelper/HookManagerHelper2", CLS), ("FunctionBase::install, PropertyBase::install", HM), ("GetJNISignature", TYP)],
  ["which ids resolve in strict mode", "which implementation runs and what it receives"])
p("C25", "Starting a VM runs exactly the registered main method",
  "Starting a VM runs the most recently registered main method exactly once, on the calling thread, with exactly the given arguments in order (or the single argument 'main' when none are given), no matter which other classes and methods exist. A thread that was not attached is attached only while the method runs, and starting a VM without a main method runs nothing and reports an error.",
  ["histories"], "All sequences of registering main methods in either form, registering other classes and methods, attaching and detaching threads, and starting with any argument list.",
  "Tests start once, with one main method and one argument list.",
  [FJ, "src/fake-jni/method.cpp"], [("Jvm::start", FJ), ("createMainMethod", FJ)],
  ["calls of the main method, their thread and arguments", "exceptions of start", "whether the thread is attached afterwards"])
p("C26", "An object lives exactly as long as something holds it, whatever holds it",
  "Across the whole VM an object is destroyed in exactly the call that takes its last strong holder away, never earlier and never later. Strong holders are local references in the frames of any attached thread, global references, native pointers, fields of living objects, static fields, elements of living object arrays, the pending exception of a thread, and the receiver and arguments of a call in progress, in any combination; weak references never hold. Destruction cascades through fields and arrays. A call returns the object its implementation returned (or null when left by an exception), also when the implementation used the VM or was called recursively, and operations of one thread leave the local references and the pending exception of other threads alone.",
  ["histories", "schedules of operations of several threads"], "All histories of creating objects and arrays, handling references, reading and writing fields, static fields and elements, throwing and clearing, calling implementations that use the VM before they return, and attaching and detaching threads. References are counted: objects that hold each other in a cycle live until the cycle is broken.",
  "Tests look at one kind of holder at a time, mostly locals, and never at calls in progress.",
  [VM, "src/jnivm/env.cpp", TYP, WR, "include/jnivm/array.h", "src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp"], [("JNITypesObjectBase::ToJNIType/JNICast", TYP), ("PushLocalFrame, NewLocalRef, NewGlobalRef, Throw", VM), ("MDispatchBase2::CallMethod", "src/jnivm/internal/method.cpp")],
  ["destructor calls after every operation", "identity of every reference handed out", "results of calls"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
