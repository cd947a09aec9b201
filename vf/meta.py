"""How each property is decided (texts of MANIFEST.json)."""
NOTES = "TLA+ specifications in spec/, replayers in harness/, framework in vf/. See DESIGN.md."
TR = "TLA+ model checked by TLC; every transition of its state graph and random deep behaviours replayed on the real library (ASan/UBSan)"
META = {
 "C01": (TR, "LocalRefs.tla: 2 objects, 3 frames, counts 0..2, all ways to obtain references, exhaustively; 4 objects, 7 frames, counts 0..4 by random behaviours. Observed: destructor calls and the identity of every returned reference after every call. One thread (threads: C03, C20)."),
 "C02": (TR, "GlobalRefs.tla: 2 objects, 2 global and 2 weak slots, all pairs of handles in every function, exhaustively; 4 objects with 5+5 slots by random behaviours. Interleavings inside calls: the programs of Concurrent.tla about references of threads to objects of their own (see C20)."),
 "C03": (TR, "Threads.tla: 2 threads, 2 objects (one with a destructor that calls the VM), exhaustively; 4 threads, 4 objects by random behaviours. Interleavings inside calls: the programs of Concurrent.tla about references (see C20)."),
 "C04": (TR, "Classes.tla: 6 names (nested, arrays, primitive arrays, one name a prefix of another) with every way of naming a class, strict and lenient, with and without debug declarations, exhaustively; 22 names by random behaviours. The replayer keeps the identity of every class object and asks for all names after every call. Interleavings inside calls: the programs of Concurrent.tla about classes (see C20)."),
 "C06": (TR, "Hierarchy.tla: 7 native classes with a chain, an interface and two diamonds, registered in every order bases-first; all pairs of classes; objects of every class reaching native code on 5 routes, looked at through local, global, weak, dead weak and null references; exhaustively."),
 "C05": (TR, "Members.tla: chain of 3 classes (instance and static member of one name), diamond of 5, all five member kinds on 2 classes, strict and lenient, exhaustively; 8 classes with 15 near-miss names and signatures by random behaviours. The replayer keeps the identity of every id ever returned. Interleavings inside calls: the programs of Concurrent.tla about members (see C20)."),
 "C07": (TR, "Members.tla (as C05): every call kind through every known id on every class of receiver, exhaustively on chain and diamond; receivers by turns local, global and weak."),
 "C08": (TR, "Calls.tla: every JNI type in every argument position next to every other type, receivers and environments requested or not, all call forms (variadic, va_list, jvalue array, native invocation), virtual, nonvirtual and static, boundary values; exhaustively over the shapes listed in the specification."),
 "C24": (TR, "Hooks.tla: every lead-parameter form (including base and derived classes of the hooked one) of function, instance function, getter, setter and member-function-pointer hooks with each way of calling it; what native code is given as environment, class and receiver, and what signature results; exhaustively. Rehook.tla: replacing hooks of each kind and of fields, also from the implementation that is running, ids obtained before and after. Members.tla (kinds, random)."),
 "C09": (TR, "Exceptions.tla: every call form (static, virtual, nonvirtual, constructor; variadic, va_list, array) of every result type, native-side invocation of hooked and registered functions, with implementations that throw std and non-std exceptions, ThrowNew, clear, or nest calls; exhaustively. 2 threads with throwable objects through every reference kind, with and without a native exception, exhaustively; 4 threads by random behaviours. Field accessors that throw are not covered (their exceptions propagate). Interleavings inside calls: the programs of Concurrent.tla about exceptions (see C20)."),
 "C10": (TR, "Fields.tla: class and derived class with fields of every JNI type bound to members, variables (static and per object), accessors in one or both directions, properties and nothing, and through FakeJni descriptors; boundary values; shadowed and inherited fields; every access through every class and reference kind, with native writes in between; exhaustively in five configurations, combined by random behaviours. FieldBind.tla: bindings made, replaced and looked up in any order: fields of one name and different types, kinds, classes, near-miss names, each direction by itself; ids kept over later bindings; strict and lenient; exhaustively for two fields, 24 fields by random behaviours."),
 "C11": (TR, "Strings.tla defines modified UTF-8 and proves its round trip in TLC for all 65536 units; every unit on the real code, every sequence of up to 2 (thorough: 3) of 16 boundary units, from units and from bytes, with every region; longer strings by random behaviours. Buffers of exactly the size under ASan."),
 "C12": (TR, "PrimArrays.tla: arrays of every primitive type made by JNI, from vectors, as copies and as views of foreign memory, lengths 0..2 (0..4 for two types) with boundary values; every region (also copied within an array and between arrays), every writer and reader, every reference kind; exhaustively for one and two arrays, three by random behaviours. After every call all contents are read in every way (ASan: buffers of exactly the region). Arrays created in bulk leave no memory behind."),
 "C13": (TR, "ObjArrays.tla: object arrays of plain, root and native classes (three levels, siblings, unrelated) made by JNI and native code; stores and loads by JNI and by native code through every base class view; null, accepted and rejected elements, life of the elements; lengths 0..2 exhaustively, 3 arrays and 6 objects by random behaviours. NestedArrays.tla: arrays of int arrays, of arrays of native, plain and root classes up to three dimensions, read and written natively through the outer array, classes and life of everything reachable. Arrays whose element class has several native bases do not compile and are outside."),
 "C14": (TR, "Monitors.tla: 3 threads, 2 objects, nested entries, waiting threads, exhaustively (at most one waiter per object, no circular waits), all pairs of reference kinds; 4 threads and 3 objects by random behaviours. A thread counts as blocked when the kernel shows it asleep inside the call. Interleavings inside calls: the programs of Concurrent.tla about monitors (see C20)."),
 "C15": (TR, "Natives.tla: a base and a derived class, several members, lists of registrations with repeated entries, unregistering, hooked instance and static methods of the same names, placeholders of lenient lookups; native lookup and invocation on objects and classes and JNI lookups after every history; strict and lenient; exhaustively for one (with hooks) and two members (without), three members by random behaviours. Functions of every result type with arguments of every type. Interleavings inside calls: the programs of Concurrent.tla about registering and unregistering (see C20)."),
 "C16": (TR, "Libraries.tla: paths (opening by themselves, linked statically, with and without each entry point, failing to open, opening later), two sets of callbacks, attach, remove, failures and destruction of the VM, exhaustively for 6 paths; libraries whose entry points attach and remove libraries, also themselves and each other, exhaustively; 9 paths by random behaviours. Every call of the callbacks and entry points is observed with its arguments and order; symbols of closed or foreign handles are refused."),
 "C25": (TR, "Main.tla: VM without and with registered main methods (both forms, replaced, among many other classes with near-miss methods), started with default and given arguments (none, one, several, repeated strings) from attached and unattached threads; exhaustively in both kinds of VM."),
 "C17": (TR, "Deny.tla: two classes, every kind of member, all pairs of 27 rules for methods and for fields (one for constructors), exhaustively; all sets of denied classes over plain, nested and array names with every way of naming or creating them, with and without debug declarations; larger sets by random behaviours. Lookups through JNI on two threads and natively. Enclosing classes and classes named in signatures come into existence with the class or member that names them (C04), denied or not."),
 "C18": (TR, "Contexts.tla: scopes with and without a VM, local frames, explicit attach (three ways) and detach, thread exit, creation and destruction of VMs; one thread with two VMs (depth 2) or one VM (depth 3), two threads (depth 1), exhaustively; 3 threads, 2 VMs, depth 4 by random behaviours. Observed after every call: the VM every thread is in and which objects live. Detaching a thread inside a context that uses its environment is outside. Interleavings inside calls: the programs of Concurrent.tla about attaching and detaching (see C20)."),
 "C22": (TR, "Reflect.tla: all kinds of members, hooked and fabricated, with both staticness flags, through own class and subclass, reflected objects and others through all reference kinds; exhaustively for one object, two objects, three by random behaviours. Buffers.tla: addresses (null, page, odd, highest) and capacities up to the largest, JNI and native buffers, all reference kinds alive and dead, asked by JNI and by native functions; the memory is followed by an inaccessible page and checked after every call."),
 "C23": (TR, "Defaults.tla: every primitive type, 7 classes of the VM and 7 of the application (with, without a default constructor, without native type, nested, without package) with up to 3 dimensions; fabricated members (lenient), implementations that throw, null receivers, null IDs, constructors that fail or do not exist, fields nobody implements or only has a setter for; all 9 forms of calls; before and after registering native types, in both kinds of VM and both build configurations of the return value; exhaustively (about 48000 transitions)."),
 "C20": (TR + " The histories of many schedules of programs generated from the specification are checked against it.", "Concurrent.tla gives every call its atomic meaning (member and native lookups: one step per searched class) and generates the programs: 2 or 3 threads with 1 or 2 calls each, in 10 groups of calls, for prepared VMs. Each program runs on the real code under a scheduler of its own (every access to shared memory, lock and atomic of the instrumented library is a possible switch, with a heap that notices access to deleted memory): all thread orders, all single preemptions at shared accesses within the budget, then random pairs of preemptions and random switching. TLC decides for every distinct history (ConcurrentTrace.tla) whether some order of the calls explains it. Weak memory order is not explored (sequentially consistent interleavings only). Hooking or registering C++ types while other threads run, and calling natives while unregistering them, are not included."),
 "C21": (TR, "Vms.tla: up to 2 VMs (3 by random behaviours) of every kind (jnivm strict and lenient, initialised by the constructor or later, FakeJni, Baron with and without setup callback), 1 or 2 threads; function table hooks, overridden environment and invocation tables (with no, the own and a foreign owner, tables taken over from another environment), exceptions, classes, denied names, hooked members, local and global references, attach, detach, destruction; exhaustively in five configurations that combine some of these, all by random behaviours. After every call the state of every VM and every environment is compared."),
 "C26": (TR, "System.tla: nodes and arrays held by local references (several threads and frames), global and weak references, fields, a static field, array elements, native pointers, pending exceptions and calls in progress (member function, function, static, native-side invocation of hooked and of registered functions; nested, left normally or by an exception); exhaustively in four configurations of 1 or 2 nodes which combine some of these; all of them with 3 nodes, 2 arrays, 2 threads, 3 frames and 3 nested calls by random behaviours. Observed after every operation: which objects live, and what was returned."),
 "C19": ("TLA+ model checked by TLC; every reached program is generated as stubs by the real library, compiled by g++ and run in a strict VM, whose classes, methods and fields are compared with the specification's", "Codegen.tla: the program which lookups (FindClass, Get*MethodID, Get*FieldID) in a lenient VM have described. A sweep puts every type (primitives, the 9 system classes, plain, nested and twice nested classes, default package; 0 to 2 dimensions) into every position (parameter, result, constructor, static and instance field); every program of up to 2 (thorough: 3) of 8 references, overloads, registered natives, arrays; random programs of 40 references over 17 classes. Both stub syntaxes, class dump and Baron's statistics. In the strict VM every member is looked up, called (zero result), constructed, written and read back, and nothing else may exist. Limited to what C++ can declare (see DESIGN.md); nested classes named before the class around them: known finding."),
}
NA = {
}
