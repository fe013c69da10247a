"""The properties, and what is said about each check.  `python3 tool/gen.py` writes properties.jsonl and MANIFEST.json from here."""

CFRONT = ("Trusts the clang 18 front end (type checking, template instantiation), tool/astx.cpp (which serialises the type-checked "
          "program) and lib/archlint/interp.py (path-sensitive abstract interpreter; unknown calls havoc what they can reach).")

PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None, level="other", note=None, rule=None,
         na=None, state=(), observe=(), assumptions=()):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, level=level, note=note, rule=rule, na=na, state=list(state), observe=list(observe),
                      assumptions=list(assumptions)))


def get(pid):
    for p in PROPS:
        if p["id"] == pid: return p
    raise KeyError(pid)


prop("C01", "A failed step is never reported as success",
     "Whenever a system call, an external library call (Xlib, GLX, SDL, libpng, FreeType) or a lower layer of the library reports failure, "
     "the operation that depends on it does not report success: it returns failure, sets the error, or throws. "
     "An operation that writes to a file through a buffer (saving an image, saving a text file, writing a whole file) does not report success before the buffered data has been flushed and that flush has succeeded.",
     ["inputs", "fault_sequences"], "every call that can fail, on every control-flow path of every function of the library that makes one, whatever fails and however often",
     "The tests run against a file system, a display and libraries that practically never fail, so the failure arms of these calls are not executed.",
     ["src/archon/core/file.cpp", "src/archon/core/text_file.hpp", "src/archon/core/impl/text_file_impl.hpp", "src/archon/core/file_sink.cpp", "src/archon/core/text_file_stream.hpp",
      "src/archon/image/save.cpp", "src/archon/image/file_format_png.cpp", "src/archon/display/x11_implementation.cpp", "src/archon/display/sdl_implementation.cpp",
      "src/archon/font/loader_freetype.cpp", "src/archon/core/thread.cpp"],
     [("error-code contracts: bool try_xxx(..., std::error_code&)", "src/archon/core/file.hpp"), ("flush before success", "src/archon/core/text_file.hpp GenericTextFile::try_save"),
      ("checked return values of system and library calls", "src/archon/core/file.cpp")],
     technique="path-sensitive abstract interpretation over the clang AST/CFG: error-result typestate of every fallible call",
     note="Decides, for every function exit of every library function containing a fallible call, that no path on which a fallible call failed reports success, and that no path reports success with unflushed buffered output. "
          "External calls are described by a table (rules/errdisc.py: failure test per call). Loops are abstracted (widening), unknown conditions are explored both ways. " + CFRONT,
     rule="For every library function and every feasible abstract path: if a fallible call (table SYSCALLS, or a repo function with an error contract) ended in failure on the path, the exit must be a failure exit (false / throw / error code set / eof) unless the failure was consumed by a documented fallback or the call was retried successfully; "
          "at a success exit no owned object with try_flush() may hold unflushed output.",
     observe=["return values", "exceptions", "std::error_code"])

prop("C02", "Every reported failure carries the error of the step that failed",
     "Whenever an operation reports failure through an error code (or through an exception built from one), that error code is non-zero and was produced by the step that failed. "
     "It is never left unset, never zero, and never the left-over error state of another call (for example because a later call overwrote the system's error state before it was read).",
     ["inputs", "fault_sequences"], "every failure exit on every path of every function that reports failure through an error code",
     "Failure arms are practically not executed by the tests, and a stale or unset error code is only visible when the particular combination of failing and succeeding calls occurs.",
     ["src/archon/core/file.cpp", "src/archon/core/text_file.hpp", "src/archon/core/filesystem.cpp", "src/archon/core/terminal.cpp", "src/archon/image/file_format_png.cpp", "src/archon/image/load.cpp",
      "src/archon/image/save.cpp", "src/archon/display/x11_implementation.cpp", "src/archon/core/resource_limits.cpp"],
     [("`int err = errno; // Eliminate any risk of clobbering`", "src/archon/core/file.cpp"), ("ec set on every failure path", "src/archon/core/file.hpp")],
     technique="path-sensitive abstract interpretation: provenance of error codes and of errno at every failure exit",
     note="At every failure exit the abstract value of the error code must be set and non-zero-by-provenance; errno is modelled as clobbered by every later call that may write it. " + CFRONT,
     rule="At every exit that reports failure: the error-code parameter was assigned on the path, by a failing contract call, a non-zero constant, or errno read with no possibly-clobbering call after the failing call; at every throw of system_error/filesystem_error the error code argument satisfies the same.",
     observe=["std::error_code", "std::system_error::code()"])

prop("C03", "Interruption by a signal is retried, never surfaced, in blocking operations",
     "A blocking read, write, lock or wait performed through an operation that does not itself report interruption to its caller is transparently restarted when interrupted by a signal. "
     "Such an operation never fails with 'interrupted', and never mistakes an interruption for success or end of input.",
     ["schedules", "fault_sequences"], "every blocking system call in the library, with a signal arriving during any of its executions, any number of times",
     "Tests do not deliver signals while a call is blocked.",
     ["src/archon/core/file.cpp", "src/archon/core/file.hpp", "src/archon/display/x11_implementation.cpp"],
     [("try_read_some() / try_write_some() loop on `interrupted`", "src/archon/core/file.hpp"), ("EINTR loops around flock() and poll()", "src/archon/core/file.cpp, src/archon/display/x11_implementation.cpp")],
     technique="path-sensitive abstract interpretation: EINTR outcome of interruptible calls tracked to every exit",
     note="Every interruptible call (read, write, flock, poll) gets an EINTR outcome; no exit of a function without an `interrupted` out-parameter may be reached with that outcome unresolved. " + CFRONT,
     rule="For read/write/flock/poll call sites: on the abstract path where the call failed with EINTR, either the call is executed again before any exit, or the function reports through its `interrupted` out-parameter (and then returns false); callers of functions with an `interrupted` out-parameter must either loop or forward.",
     observe=["std::error_code", "return values"])

prop("C04", "Throwing operations and their try_ siblings agree",
     "For every operation that exists both in a throwing form and in a non-throwing `try_` form, the throwing form makes exactly the attempt the `try_` form would make with the same arguments, throws if and only if that attempt fails, and returns the result of that attempt. "
     "The exception carries exactly the error code that the `try_` form reports.",
     ["inputs", "fault_sequences"], "every throwing/non-throwing pair in the public interface, for all arguments and all outcomes",
     "Most throwing forms are tested on a few succeeding calls; which arguments are forwarded and what happens on failure is not.",
     ["src/archon/core/file.hpp", "src/archon/core/text_file.hpp", "src/archon/core/buffered_text_file.hpp", "src/archon/core/source.hpp", "src/archon/core/sink.hpp", "src/archon/image/load.hpp", "src/archon/image/save.hpp",
      "src/archon/core/filesystem.hpp", "src/archon/display/implementation.hpp", "src/archon/util/css_color.hpp"],
     [("throwing wrapper around try_ form", "src/archon/core/file.hpp"), ("std::system_error / std::filesystem::filesystem_error built from ec", "src/archon/core/file.hpp")],
     technique="path-sensitive abstract interpretation of each pair: outcome, argument-provenance and error-code agreement",
     note="Pairs are discovered by name and class; at every exit of the throwing form the outcome of its sibling call, the provenance of each forwarded argument and of the error code in the thrown object are compared. " + CFRONT,
     rule="For every function X with a sibling try_X: on every path an attempt is made through try_X (or the same callee try_X uses); normal exit iff the attempt returned true; throw iff false; each parameter of X is forwarded to the same-named/typed parameter; a thrown system_error/filesystem_error contains the error code filled in by the attempt; the returned value derives from the attempt's outputs.",
     observe=["exceptions", "return values"])

prop("C06", "Foreign resources are released exactly once on every path",
     "Every operating-system, window-system or foreign-library resource that the library acquires (file descriptors, display connections, windows, pixmaps, graphics contexts, colormaps, server grabs, "
     "memory returned by Xlib, SDL subsystem, windows, renderers, textures and GL contexts, FreeType libraries and faces, libpng structures, memory from malloc-based interfaces, C locales) is released exactly once: "
     "on every path out of the acquiring operation, including those taken when a later step fails or throws, unless ownership passes to an object; and then by the destructor of that object, whatever operation (also a failed one) came before, and after moves by exactly one of the objects. "
     "The colors that are returned to a shared colormap when allocation fails half-way are the ones that were allocated.",
     ["inputs", "fault_sequences", "histories"], "every acquiring call, every path (normal or exceptional) from it, and every operation/destruction sequence of the owning class",
     "Leaks and double releases happen on error and exception paths, which the tests do not take; the tests of the display library do not open windows at all.",
     ["src/archon/core/file.hpp", "src/archon/core/file.cpp", "src/archon/display/x11_implementation.cpp", "src/archon/display/noinst/x11/support.cpp", "src/archon/display/noinst/x11/support.hpp",
      "src/archon/display/sdl_implementation.cpp", "src/archon/font/loader_freetype.cpp", "src/archon/image/file_format_png.cpp", "src/archon/core/demangle.cpp", "src/archon/core/locale.cpp"],
     [("wrapper classes with releasing destructors", "src/archon/display/noinst/x11/support.hpp"), ("scope guards", "src/archon/core/scope_exit.hpp"), ("two-phase construction so that the destructor cleans up", "src/archon/display/x11_implementation.cpp WindowImpl::create()")],
     technique="path-sensitive abstract interpretation with exceptional edges: ownership typestate of every handle, composed with each owning class's destructor",
     note="Handles are tracked as symbolic values from the acquiring call (table of acquiring/releasing functions in rules/resources.py) through locals, scope guards, lambdas, wrappers and fields. For each owning class, every operation is followed by the destructor in the abstract state it leaves behind. " + CFRONT,
     rule="At each normal or exceptional exit, each live handle must be held by the return value or by an object that outlives the call; for every owning class and every operation (normal or throwing exit), running the destructor in the resulting abstract state releases the handle exactly once; move operations leave exactly one owner; colors given to XFreeColors originate from XAllocColor.",
     observe=["open descriptors and server-side resources"])

prop("C10", "Exceptions never escape where they must not",
     "No exception ever leaves a function that promises not to throw: a function declared noexcept, a destructor, a callback invoked by a C library (libpng, FreeType), or the entry function of a thread. "
     "Every operation that can throw inside such a function is either enclosed by a handler that catches everything or does not occur there at all. "
     "(An escaping exception terminates the process, or unwinds through frames of a C library.)",
     ["inputs", "fault_sequences"], "every function of the library that must not throw, with every operation it may reach failing",
     "The operations that throw do so on allocation failure, bad input or I/O failure; the tests practically never make them fail inside a function that must not throw.",
     ["src/archon/core/file.hpp", "src/archon/image/file_format_png.cpp", "src/archon/core/thread_guard.hpp", "src/archon/core/scope_exit.hpp", "src/archon/display/sdl_implementation.cpp", "src/archon/display/x11_implementation.cpp",
      "src/archon/font/loader_fallback.cpp", "src/archon/cli/processor.hpp", "src/archon/image/indexed_pixel_format.hpp", "src/archon/core/text_formatter.hpp"],
     [("noexcept on declarations, `// Throws` on calls that may throw", "src/archon/core/file.hpp"), ("callbacks catch everything and longjmp", "src/archon/image/file_format_png.cpp"), ("thread body catches everything", "src/archon/core/thread_guard.hpp")],
     technique="interprocedural effect analysis: may-throw fixpoint over the call graph of the type-checked program",
     note="Least fixpoint of may-throw over all function bodies (templates as instantiated by the library and by drivers/*.cpp). Functions without a visible body and virtual functions may throw unless declared noexcept, of C linkage, or in a list of standard library functions that cannot throw (rules/exceptions_.py NOTHROW). "
          "A dozen call sites with a documented reason are exempt (EXEMPT). " + CFRONT,
     rule="For every function that must not throw (declared noexcept, destructor, callback handed to a function of C linkage): no throw expression and no call of a function that may throw outside a try block with catch (...); may-throw is the least fixpoint over the call graph.",
     observe=["std::terminate()"])

prop("C12", "The whole public interface compiles, is defined and links",
     "Every public header compiles on its own (it can be the first and only header that a program includes), whatever order headers are included in. "
     "Every function that a header declares (other than deleted, defaulted and pure virtual ones) is defined, and every member of every class template can be instantiated for the character, number and element types that the template is meant for. "
     "The same goes with any of the optional features (X11 and its extensions, GLX, OpenGL, SDL, PNG, FreeType) unavailable, and both with and without debug mode: every source file compiles and every function that is used is defined.",
     ["inputs"], "every public header, declared function, class template member, feature configuration and build mode",
     "The tests are built in one configuration, include everything in one order, and instantiate only the members they use; what is not used is not even compiled.",
     ["src/archon/core/span.hpp", "src/archon/core/base64.hpp", "src/archon/log/jail_logger.hpp", "src/archon/image/palette_image.hpp", "src/archon/cli/option_actions.hpp", "src/archon/display/noinst/x11/support.hpp",
      "src/archon/display/implementation.cpp", "src/archon/image/file_format_registry.cpp", "src/archon/font/loader.cpp"],
     [("public headers", "src/archon/*/*.hpp"), ("optional features", "src/archon/display/impl/config.h.in"), ("debug mode", "src/archon/core/features.h ARCHON_DEBUG")],
     technique="compile-time witnesses (headers on their own, explicit instantiations, feature configurations) plus declaration/definition and reference/definition closure over the type-checked program",
     note="Headers are type-checked one by one; drivers/*.cpp explicitly instantiate class templates for narrow and wide characters and representative element types, so that every member is type-checked; a declared function without a definition anywhere in the library is reported; "
          "each optional feature is switched off in turn (and all together), and NDEBUG is switched on, and the library is type-checked again and every function referred to in a body must have a body. Function templates and member templates that neither the library nor the drivers call are checked only as far as the compiler does without instantiation. Platforms other than the present one are not covered. " + CFRONT,
     rule="Type-checking succeeds for: each public header on its own; each explicit instantiation in drivers/*.cpp; each library translation unit in each feature configuration and in release mode. Every declared function that is not pure, deleted or defaulted has a definition; every function referred to from a body has a body.",
     observe=["compiler and linker diagnostics of a program that uses the interface"])

prop("C18", "Every message gets exactly the parameters that it refers to",
     "Every parameterized message that the library formats or logs (log messages at every level, command-line error messages, test framework reports, formatted values) is well-formed and contains exactly one substitution marker for each parameter that is passed with it. "
     "So no such message ever fails with an invalid-format exception in place of being delivered.",
     ["inputs", "fault_sequences"], "every formatting and logging call in the library, whenever it is reached (most belong to failure paths)",
     "Most messages are only produced in error situations or at log levels that the tests do not enable, so a wrong number of parameters goes unnoticed until the situation occurs, and then an exception replaces the diagnosis.",
     ["src/archon/core/format.hpp", "src/archon/log/logger.hpp", "src/archon/cli/processor.hpp", "src/archon/display/x11_implementation.cpp", "src/archon/image/file_format_png.cpp", "src/archon/font/loader_fallback.cpp", "src/archon/check/root_context.hpp",
      "src/archon/display/noinst/x11/support.cpp", "src/archon/core/text_parser.hpp"],
     [("`%s` markers, one parameter each", "src/archon/core/format.hpp"), ("BadFormatString", "src/archon/core/format.hpp")],
     technique="interprocedural query over the type-checked program: formatting functions recognised by signature and by a forwarding fixpoint; literal/argument matching at every call site",
     note="A formatting function is any function or generic lambda of the library whose message parameter (string view or character pointer) is directly followed by a parameter pack, and everything that only passes its own message and parameters on to one. Decides every call whose message is a string literal, a conditional of literals or a variable that only holds a literal; messages that are passed on are decided at the callers. "
          "Messages composed at run time are out of reach. " + CFRONT,
     rule="At every call of a formatting function with a literal message: the message contains only %s and %% and as many %s as there are parameters.",
     observe=["log messages", "core::BadFormatString"])


prop("C22", "Nothing that a caller supplies is silently ignored",
     "Every option of a configuration object is consulted by the operation that it is passed to (for window options: by every display implementation); every parameter and every template parameter (such as a policy) of a function or class takes part in what the function or class does; "
     "and a value that a function computes from its input (a normalised index, a clamped size, a converted component) is the one that is used from then on, rather than being computed and then dropped.",
     ["inputs"], "every configuration option, function parameter, template parameter and computed local value in the library",
     "A test notices an ignored option only if it sets that option and its effect is observable without a display, a network or a terminal; most options and most normalised values are never exercised with a value for which ignoring them makes a difference.",
     ["src/archon/image/load.cpp", "src/archon/image/save.cpp", "src/archon/display/window.hpp", "src/archon/display/x11_implementation.cpp", "src/archon/display/sdl_implementation.cpp", "src/archon/check/test_runner.cpp", "src/archon/cli/impl/help_formatter.hpp",
      "src/archon/core/text_file.hpp", "src/archon/core/base64.cpp", "src/archon/render/noinst/engine_impl.cpp", "src/archon/core/index_iterator.hpp", "src/archon/log/logger.hpp"],
     [("configuration structs", "src/archon/image/load.hpp"), ("\"Specifying a negative value for the screen has the same effect as specifying the default screen\"", "src/archon/display/connection.hpp")],
     technique="def-use and liveness analysis over the type-checked program (options read, parameters referenced, stores live)",
     note="Options: every member of every *Config type is read outside the type itself and outside code that merely copies it. Parameters: every named parameter of every function (templates included) is referenced in its body. Template parameters: every one is referenced by the template or its member functions. "
          "Values: backward liveness of every local scalar variable on the control-flow graph; a store of a computed value must be live in some instantiation. Does not decide that an option that is consulted has the right effect. " + CFRONT,
     rule="No option without a reader (per implementation for window options); no named parameter or template parameter without a reference; no store of a non-constant value to a local scalar that is dead in all instantiations.",
     observe=["configuration options", "arguments"])


prop("C08", "State that threads share is only touched under its lock",
     "Every object that the library shares between threads without the caller's help (loggers, the test framework's root and thread contexts, the fallback font loader, the FreeType library instance, the SDL connection state, type identifiers, and all static variables) is data-race free and deadlock free: "
     "each mutable member is atomic, or every access to it by a function that can run concurrently holds the mutex that protects it for the whole access, and a modification that depends on the examined state happens under the same lock as the examination; reporting callbacks are serialised by the root context's mutex; "
     "calls of foreign functions that must be serialised are made under a lock; mutexes are acquired in a consistent order and never twice by the same thread; no mutable static variable is modified without synchronisation, and no foreign function that is unsafe with multiple threads is called.",
     ["schedules"], "every access to a member of a mutex-owning class and to a static variable, under every interleaving of any number of threads",
     "A missing or too narrow lock only fails under particular interleavings, which the tests do not provoke and which practically never occur on a lightly loaded machine.",
     ["src/archon/log/logger.hpp", "src/archon/log/limit_logger.hpp", "src/archon/check/noinst/thread_context_impl.cpp", "src/archon/check/noinst/root_context_impl.hpp", "src/archon/font/loader_fallback.cpp", "src/archon/font/loader_freetype.cpp", "src/archon/display/sdl_implementation.cpp",
      "src/archon/core/impl/type_ident_impl.hpp", "src/archon/core/random.cpp"],
     [("\"Protected by `m_mutex`\"", "src/archon/log/logger.hpp, src/archon/check/noinst/thread_context_impl.hpp"), ("\"Calls to reporter functions must happen while holding a lock on `mutex`\"", "src/archon/check/noinst/root_context_impl.hpp")],
     technique="interprocedural lockset (must-hold) dataflow, guarded-by inference, lock-order graph",
     note="Locksets are computed on the control-flow graph from guard objects, lock()/unlock() calls and guards passed by reference, and propagated into functions whose callers are all known. A member of a mutex-owning class that is modified outside construction must be accessed under one common mutex at every access, except by the thread that drives the object (ThreadContextImpl::run(), nonconcur_run()) when the mutex is the object's own. "
          "Mutexes are identified by the member that they are, not by instance. Does not decide races on memory that is reached through pointers handed out under the lock. " + CFRONT,
     rule="For each protected member: the intersection of the locksets over all concurrent accesses contains its mutex; EXTERN and Reporter calls have a non-empty lockset; no acquisition of a held mutex; no modification of a protected member based on an examination under an earlier, released lock; acyclic lock order; no unsynchronised write to a static variable; no call of an MT-unsafe function.",
     observe=["data races", "deadlocks"])


prop("C09", "Values are copied, moved, swapped and compared as a whole",
     "Every user-written copy, move and swap operation of the library transfers every member of the object, each into the member of the same name, on every path; a moved-from object is left in a state in which its destructor does nothing and in which it may be assigned to, destroyed and moved again; assignment operators return the object assigned to; "
     "a class whose destructor releases something is never copied member by member. "
     "The comparison operators of every value type take every member into account and are consistent with each other for every pair of operands: == is an equivalence, != is its opposite, < is a strict ordering, and >, <= and >= agree with it.",
     ["inputs"], "every copy, move and swap operation, for any state of the two objects, and every comparison operator, for any pair of operands",
     "A test of a value type moves it once and compares a few equal and unequal pairs; a member that is not transferred, is crossed with another one, or is left out of a comparison shows only when that member differs in the way that matters.",
     ["src/archon/core/deque.hpp", "src/archon/core/memory.hpp", "src/archon/core/buffer.hpp", "src/archon/core/vector.hpp", "src/archon/core/pair.hpp", "src/archon/core/type.hpp", "src/archon/core/file.hpp", "src/archon/core/index_iterator.hpp", "src/archon/util/pixel_pos.hpp", "src/archon/util/pixel_size.hpp",
      "src/archon/util/pixel_box.hpp", "src/archon/math/vector.hpp", "src/archon/image/pixel.hpp", "src/archon/display/resolution.hpp", "src/archon/render/key_binding_support.hpp"],
     [("move operations and swap()", "src/archon/core/deque.hpp"), ("comparison operators", "src/archon/util/pixel_box.hpp")],
     technique="member-wise provenance and must-store dataflow on copy, move and swap operations; exhaustive abstract evaluation of comparison operators over all combinations of member orderings",
     note="Copy/move/swap: the value stored in each member is traced to the member of the other object that it came from; every member that is not transferred wholesale has to be stored on every path; the members that the destructor examines must be reset in the source. "
          "Comparisons: the operators of a class are evaluated for every assignment of {less, equal, greater} to the members of the two operands (which decides them for all operands provided that the comparison of the members is itself an ordering). Comparison operators that delegate to arithmetic (multi-precision integers, matrices by element loops) are outside. " + CFRONT,
     rule="Every member stored from its counterpart on all paths; destructor-relevant members reset in the source, equally in both move operations; returns *this; no member-wise copy of a class with a releasing destructor; == , !=, <, >, <=, >= consistent for every sign vector and dependent on every member.",
     observe=["values", "double release"])


prop("C19", "Assertions and debug mode never do work",
     "The condition of an assertion has no effect on the state of the program: it modifies no object, calls nothing that modifies an object, and neither allocates, reads input, writes output nor takes a lock. "
     "Whatever the library does in debug mode it also does in release mode (with `NDEBUG`), and vice versa: apart from the checks themselves and the members that exist for the sake of the checks, every function performs the same operations in both modes.",
     ["inputs"], "every assertion in the library and every function that is compiled differently in the two modes, for any input",
     "The tests are run in one of the two modes only, so work that is lost (or added) in the other mode is invisible to them.",
     ["src/archon/core/assert.hpp", "src/archon/core/features.h", "src/archon/image/image.hpp", "src/archon/image/buffered_image.hpp", "src/archon/image/writer.hpp", "src/archon/core/buffered_text_file.hpp", "src/archon/core/char_codec.hpp"],
     [("ARCHON_ASSERT is `(true || (cond) ? void() : ...)` in release mode", "src/archon/core/assert.hpp"), ("ARCHON_DEBUG", "src/archon/core/features.h")],
     technique="interprocedural purity (effect) analysis of assertion conditions; syntax-tree comparison of the program type-checked with and without NDEBUG",
     note="Purity is computed over the call graph from assignments, increments, deletions and calls of non-const external members and of external C functions (a list of effect-free ones is trusted). Virtual calls in conditions are resolved to the statically named function. "
          "The two configurations of every library function are compared statement by statement; statements present in one mode only must be pure or modify only members that exist in that mode only. " + CFRONT,
     rule="No assertion condition with an effect; no statement in one mode only, other than assertions and updates of mode-only members.",
     observe=["state of the program"])


prop("C21", "Amounts are never silently changed by conversion or overflow",
     "No value is implicitly converted to a type that cannot represent it: no implicit narrowing conversion between integer types or from floating point to integer, and no comparison, division or right shift in which a possibly negative operand is implicitly converted to an unsigned type. "
     "Every amount of memory that is computed as a product of runtime quantities (image sizes, numbers of channels, palette sizes, numbers of elements) is computed with checked arithmetic, such that overflow is reported instead of leading to a block of memory that is too small; "
     "an amount that is computed with checked arithmetic in one step is so in every step; and the verdict of a checked arithmetic operation (`try_int_add()`, `try_int_mul()`, `try_int_cast()`, ...) is always examined.",
     ["inputs"], "every conversion, comparison and division of integers and every allocation size in the library, for all values of the operands",
     "The amounts that occur in tests are small; overflow and sign errors show only with amounts close to the limits of the types.",
     ["src/archon/core/integer.hpp", "src/archon/core/buffer.hpp", "src/archon/core/memory.hpp", "src/archon/image/buffer_format.hpp", "src/archon/image/integer_pixel_format.hpp", "src/archon/image/packed_pixel_format.hpp", "src/archon/image/subword_pixel_format.hpp",
      "src/archon/image/indexed_pixel_format.hpp", "src/archon/image/reader.hpp", "src/archon/image/reader.cpp", "src/archon/font/face.cpp", "src/archon/core/word_wrap.cpp", "src/archon/core/random.hpp", "src/archon/image/palette_image.hpp",
      "src/archon/image/block.hpp", "src/archon/display/noinst/palette_map.hpp"],
     [("`core::int_mul(n, image_width); // Throws`", "src/archon/image/buffer_format.hpp"), ("try_int_*() return verdicts", "src/archon/core/integer.hpp")],
     technique="compiler conversion diagnostics with a zero baseline; interprocedural backward slicing of allocation sizes for unchecked multiplications; discarded-verdict analysis",
     note="Explicit conversions are taken to be intended. Sums are not examined in allocation sizes (they are bounded by the memory that already exists), except where the amount is otherwise computed with checked arithmetic. KeyCode values and XColor components, which are narrower in the X protocol than in some structures, are exempt from the narrowing rule. "
          "A product is accepted without a check if a function called by the same function has multiplied the same quantities with checked arithmetic. " + CFRONT,
     rule="No diagnostics of the selected classes (sign-compare, shorten-64-to-32, float-conversion, implicit-int-conversion, ...); no signed dividend converted to unsigned unless provably nonnegative; no unchecked product in the backward slice of an allocation size; no unchecked step on a variable that is the target of checked arithmetic; no discarded verdict.",
     observe=["memory safety", "values"])


prop("C17", "No object is used after its value or its lifetime has ended",
     "An object whose value has been given away (`std::move()`, `std::forward()` of an rvalue) is not used again on any path before it has been given a new value. "
     "An argument that the caller passed as an lvalue is never moved from, neither when it was passed by lvalue reference nor through a forwarding reference. "
     "No function returns, or leaves behind in an object that outlives the call, a pointer, reference, span or string view that refers to one of its local objects. "
     "No pointer, reference, iterator, span or string view into the memory of a growing container (buffer, vector, string) is used after an operation that may have reallocated that memory.",
     ["inputs"], "every path through every function of the library that gives values away, returns or stores views, or keeps pointers into containers",
     "Reading a moved-from, dead or reallocated object mostly yields plausible values; whether memory is reallocated depends on sizes that tests do not reach.",
     ["src/archon/core/thread_guard.hpp", "src/archon/core/literal_hash_map.hpp", "src/archon/core/buffer.hpp", "src/archon/core/buffer_contents.hpp", "src/archon/core/string_buffer_contents.hpp", "src/archon/core/impl/text_codec_impl.hpp", "src/archon/cli/string_holder.hpp",
      "src/archon/core/unicode_bridge.cpp", "src/archon/core/text_formatter.hpp", "src/archon/display/noinst/x11/support.cpp", "src/archon/cli/option_actions.hpp"],
     [("`std::forward<F>(func)`", "src/archon/core/thread_guard.hpp"), ("buffers that grow by reallocation", "src/archon/core/buffer.hpp")],
     technique="flow-sensitive moved-from and invalidated-view analyses on the control-flow graph; escape analysis of views of local objects; forwarding-reference lint on template patterns; lifetime diagnostics of the compiler",
     note="Moved-from: may-analysis over places (local variables, parameters, members); a value counts as given away when it is bound to an rvalue parameter whose callee takes it (decided interprocedurally), to a by-value parameter, or to a move constructor or assignment. Objects that are copied bitwise are exempt. "
          "Invalidated views: pointers derived from data(), begin(), operator[] and the like of standard and archon containers, against growing operations on the same place and calls that receive the container by non-const reference. Aliases between places, and views passed through other functions, are not tracked. " + CFRONT,
     rule="No use of a maybe-moved-from place; no std::move() of an lvalue-reference parameter or of a forwarding reference (template pattern); no returned or stored view of a local; no use of a view after a growth operation of the container that it was taken from.",
     observe=["values", "memory safety"])


prop("C14", "Nothing is read before it has been given a value",
     "No variable, and no member of an object, is read on any path before it has been given a value: every constructor gives a value to every member that the other operations of the class rely on (or the class has an operation that does so, and every owner of such an object performs it in each of its constructors), "
     "no member is used by a constructor before it is initialized, and no local variable or structure is read, returned or passed on by value before all of its members have been assigned.",
     ["inputs"], "every constructor, every operation of every class, and every path through every function of the library",
     "Memory that was not initialized often happens to contain zero or the expected value in tests; whether it does depends on what the memory was used for previously.",
     ["src/archon/core/impl/buffered_text_file_impl.hpp", "src/archon/core/impl/prim_text_file_impl.hpp", "src/archon/core/text_file.hpp", "src/archon/render/virt_trackball.hpp", "src/archon/render/noinst/engine_impl.cpp", "src/archon/core/string_template.hpp", "src/archon/cli/impl/spec_parser.hpp",
      "src/archon/display/noinst/x11/support.cpp", "src/archon/font/loader_freetype.cpp", "src/archon/util/css_color.hpp", "src/archon/core/text_formatter.hpp", "src/archon/check/noinst/thread_context_impl.cpp"],
     [("`m_impl.reset(state)` in constructors", "src/archon/core/text_file.hpp"), ("members without initializer", "src/archon/core/impl/prim_text_file_impl.hpp")],
     technique="interprocedural definite-assignment dataflow analysis of members (per constructor, per operation, per owner) and of local structures on the control-flow graph; uninitialized-variable diagnostics of the compiler with a zero baseline",
     note="Scalar members only (arrays and elements of memory blocks are not tracked). An object that is passed by non-const reference, captured by reference, or on which a non-const operation is performed, is assumed to have been assigned. Reads through other functions than the operations of the class itself and its owners are not tracked. "
          "Four members that are read only in states in which they have been assigned are listed with the reason in rules/uninit.py (LATER), as is the singular state of iterators. " + CFRONT,
     rule="No member that some constructor leaves without a value may be in the upward-exposed reads of a non-private operation (reads on some path before any assignment, through called operations of the same object); classes with a separate initializing operation: every owner performs it in its constructors; no read or copy of a local structure with unassigned members; no diagnostics of the selected classes (uninitialized, sometimes-uninitialized, conditional-uninitialized, reorder-ctor, return-type, ...).",
     observe=["values"])


prop("C05", "Success comes with complete results and is not reported as failure",
     "Whenever an operation reports success (returns true, or returns normally if it reports failures by throwing), all the results that it delivers through its reference parameters have been assigned; which of them are delivered may depend only on what another result says. "
     "An operation does not report failure on every path on which one of its steps has succeeded: the success of each step can lead to the success of the operation. An operation that writes a number of characters tells how many were written also when it fails.",
     ["inputs", "fault_sequences"], "every success exit on every path of every function of the library with results in reference parameters, and every fallible step of every function that reports success or failure",
     "A result that is not assigned on a rarely taken path usually has a plausible value in tests, because the caller's variable was initialized or holds the result of a previous call.",
     ["src/archon/core/impl/text_file_impl.hpp", "src/archon/core/impl/prim_text_file_impl.cpp", "src/archon/core/file.cpp", "src/archon/core/file.hpp", "src/archon/core/unicode.hpp", "src/archon/core/integer.hpp", "src/archon/display/x11_implementation.cpp", "src/archon/display/noinst/x11/support.cpp",
      "src/archon/font/loader_freetype.cpp", "src/archon/font/face.cpp", "src/archon/image/load.cpp", "src/archon/image/save.cpp", "src/archon/image/file_format_png.cpp", "src/archon/cli/impl/value_parser.hpp", "src/archon/util/css_color.cpp"],
     [("bool try_xxx(..., T& result, std::error_code&)", "src/archon/core/file.hpp"), ("`return true; // Success`", "src/archon/core/file.cpp")],
     technique="path-sensitive abstract interpretation over the clang AST/CFG: assignment typestate of reference parameters, and correlation of outcomes of steps with the outcome of the operation",
     note="A parameter counts as a result if it is assigned on some success path and never read before it is assigned. Parameters whose assignment depends on the value of another boolean or enumerated result are grouped by that value; flags that are only ever raised are exempt. About 25 functions exceed the bound on the number of abstract states; they are listed in the evidence as not examined. "
          "Calls that receive a result by reference are taken to assign it (on success only, if the callee is known to assign it only on success). " + CFRONT,
     rule="For every function returning bool or void with reference parameters: at every exit that reports success, each result parameter is assigned; for every fallible call whose outcome is used: some path on which it succeeded reports success; functions named *write* with an error code assign their count on failure too.",
     observe=["return values", "results"])


prop("C24", "What belongs to one dimension, channel or end is never taken for another",
     "Horizontal and vertical quantities (x and y, width and height, horizontal and vertical strides, bearings, resolutions and view parameters, rows and columns), the channels of a color (red, green, blue, alpha), and opposite ends (left and right, top and bottom, minimum and maximum, foreground and background, numerator and denominator) are never mixed up: "
     "what is computed, stored, or passed on as the one is computed from the values that belong to it, never from the corresponding value of the other; and a horizontal quantity is never added to, subtracted from, or compared with a vertical one.",
     ["inputs"], "every assignment, initialization, argument, sum, difference and order comparison of the library in which such quantities take part",
     "Tests mostly use square images, symmetrical positions, gray colors, or equal resolutions, for which a mixed-up dimension or channel makes no difference.",
     ["src/archon/image/reader.cpp", "src/archon/image/reader.hpp", "src/archon/image/writer.cpp", "src/archon/image/writer.hpp", "src/archon/image/block.hpp", "src/archon/image/geom.hpp", "src/archon/image/subword_pixel_format.hpp", "src/archon/display/x11_implementation.cpp", "src/archon/display/sdl_implementation.cpp",
      "src/archon/display/noinst/x11/support.cpp", "src/archon/display/noinst/x11/support.hpp", "src/archon/font/loader_freetype.cpp", "src/archon/font/loader_fallback.cpp", "src/archon/render/noinst/engine_impl.cpp", "src/archon/render/virt_trackball.cpp", "src/archon/util/rectangle_packer.hpp",
      "src/archon/util/color.hpp", "src/archon/util/css_color.cpp", "src/archon/image/geom.hpp"],
     [("names of members and parameters", "src/archon/image/geom.hpp"), ("struct Color { red, green, blue, alpha }", "src/archon/util/color.hpp")],
     technique="type-checked syntax tree: role analysis of named quantities (dimension / channel / end) through assignments, initializers, aggregate and call arguments, sums and comparisons, with a zero baseline",
     note="The role of a quantity is taken from the declared names of variables, members, parameters and accessors, and from constant indexes into vectors; quantities whose names do not tell a role are not tracked, and products are not examined (areas, strides and aspect ratios legitimately mix dimensions). "
          "Copies between the channels of one object (grays) and equality comparisons are exempt, as are strides and baselines. " + CFRONT,
     rule="No value whose declared name has one role of a family flows (as it is or through sums, differences, min, max, conversions) to a variable, member or parameter whose declared name has another role of the same family and otherwise compatible name; no sum, difference or order comparison of an x-axis and a y-axis quantity.",
     observe=["values", "pixels"])


prop("C13", "Every alternative is handled, and as what it is",
     "Wherever the library distinguishes between alternatives, it handles every one of them, and each as itself. (1) Every selection by an enumeration has a case of its own for every enumerator, no case runs into the next, and no function that is to return a value ends without one. "
     "(2) Every table that relates enumerators to their names (log levels, mouse buttons, visual classes, falloff modes, component representations, terminal modes) lists each enumerator once, under a name of its own. "
     "(3) Error codes, colors, classes and other alternatives that are mapped to messages, escape codes, flags, or functions are mapped each to its own one, never to that of another alternative, and tables of the same codes agree. "
     "(4) A function that is named after an alternative (such as the error() of a logger) stands for that alternative, and a wrapper forwards an operation to the operation of the same name. "
     "(5) Every event of the platform (X11, SDL) is delivered to the event handler function that is meant for it, and only to that one, by every implementation of connections; every implementation of displays and every image file format is listed in its registry.",
     ["inputs"], "every selection by enumeration, table of enumerators, one-step forwarder, event handler call, and registry of the library",
     "Tests exercise a few of the alternatives of each kind; platform events and most error codes never occur in them.",
     ["src/archon/core/terminal.hpp", "src/archon/core/terminal.cpp", "src/archon/core/file.cpp", "src/archon/core/misc_error.cpp", "src/archon/core/text_file_error.cpp", "src/archon/core/resource_limits.cpp", "src/archon/log/log_level.hpp", "src/archon/log/logger.hpp", "src/archon/log/sink.hpp", "src/archon/image/error.cpp", "src/archon/image/comp_repr.hpp",
      "src/archon/image/buffer_format.cpp", "src/archon/image/file_format_png.cpp", "src/archon/image/file_format_registry.cpp", "src/archon/image/color_space.hpp", "src/archon/display/mouse_button.hpp", "src/archon/display/x11_connection_config.hpp", "src/archon/display/x11_implementation.cpp", "src/archon/display/sdl_implementation.cpp",
      "src/archon/display/implementation.cpp", "src/archon/display/event_handler.hpp", "src/archon/display/noinst/x11/support.cpp", "src/archon/render/opengl.cpp", "src/archon/util/css_color.cpp", "src/archon/cli/impl/spec_parser.hpp"],
     [("EnumTraits tables", "src/archon/log/log_level.hpp"), ("enum switches", "src/archon/image/error.cpp"), ("event loops", "src/archon/display/x11_implementation.cpp")],
     technique="type-checked syntax tree: exhaustiveness of selections and tables, injectivity and name correspondence of mappings, condition-narrowed reachability of event handler calls from platform event codes, reference closure of registries; clang diagnostics (-Wswitch, -Wimplicit-fallthrough, -Wreturn-type) with a zero baseline",
     note="Correspondence of an alternative with what it is mapped to is judged by the names of the enumerators, constants, functions, members and texts involved; where names tell nothing (numbers), only distinctness, the series of the codes, and agreement of tables are judged. "
          "The meaning of platform event codes is taken from the X11 and SDL documentation (table EVENTS of the rule). Numeric parsing and formatting of enumerators by core::EnumMapper is not examined. " + CFRONT,
     rule="Every switch over a library enumeration has a label for every enumerator; arms that yield a constant yield distinct ones; no arm uses what is named after another arm's label but nothing of its own; every table of enumerators is complete and has distinct, matching names; a one-step forwarder calls the function of its own name if there is one; an event handler is called only where the event codes that can reach it are the ones it is meant for.",
     observe=["results"])


prop("C23", "Nothing is used before it is known to exist",
     "The library uses what may be missing only where it is known to be there. (1) The value of an optional, the element found by a search, the object returned by a function that may return a null pointer, and the result of a dynamic cast are accessed only on paths on which their presence was established. "
     "(2) Functions of optional platform extensions (XRandr, X double buffering, XKB, GLX) are called only where the extension is known to be available on the connected server, and rendering sizes are set by scaling only for font faces that are scalable. "
     "(3) In a search for the best candidate, the best one so far is consulted only where one has been selected already.",
     ["inputs", "faults"], "every access to the value of an optional, an iterator returned by a search, or a pointer that may be null, every call of a function of an optional extension, and every running selection of the library",
     "Whether something exists depends on the input, the environment, the X server, and the font file at hand; tests run with one of each, and mostly with those that have everything.",
     ["src/archon/core/range_map.hpp", "src/archon/core/flat_map.hpp", "src/archon/core/file.cpp", "src/archon/core/text_codec.hpp", "src/archon/cli/processor.hpp", "src/archon/cli/impl/processor.hpp", "src/archon/image/file_format_registry.cpp", "src/archon/font/loader_freetype.cpp", "src/archon/util/kdtree.hpp",
      "src/archon/display/x11_implementation.cpp", "src/archon/display/noinst/x11/support.cpp", "src/archon/display/sdl_implementation.cpp", "src/archon/render/noinst/engine_impl.cpp", "src/archon/check/test_context.cpp"],
     [("searches", "src/archon/image/file_format_registry.cpp"), ("ExtensionInfo (have_...)", "src/archon/display/noinst/x11/support.hpp"), ("FT_IS_SCALABLE()", "src/archon/font/loader_freetype.cpp")],
     technique="type-checked syntax tree and control flow graphs: forward dataflow of presence facts (optionals: must; searches, casts, nullable pointers: may), interprocedural derivation of nullable results and of flags that imply a capability, with a zero baseline",
     note="Pointers that are members or parameters are taken to be non-null, as are the results of functions outside the library that are not listed; presence facts about members survive calls. Elements accessed by index are not covered. " + CFRONT,
     rule="No access to an optional without has_value() / bool test / assignment on every path; no dereference of a possibly-absent search result or pointer on any path from its origin; every call of an extension function is reached only under conditions (also of all callers, and of flags derived from it) that imply the capability.",
     observe=["results", "crashes"])

prop("C07", "No element is accessed at or beyond the end of its sequence",
     "Wherever the library itself checks an index or a count against a limit before it uses the index, the check is strong enough: after it, no element of an array, a vector, a span, a string view, or a buffer is read or written at an index that is equal to, or greater than the number of elements. "
     "The same holds for indexes with a limit known from the context (constant array sizes, loops, results of min() and of remainders): an index limited by `<= size`, or by the size of something that is larger than what is being accessed, is not used.",
     ["inputs"], "every access by index in the library for which an upper limit of the index is known from the conditions, assertions, and loops on the paths to it",
     "The access beyond the end happens for one index value only (the first one beyond the end), and usually reads memory that happens to exist; a test has to pick exactly that value.",
     ["src/archon/core/buffer.hpp", "src/archon/core/span.hpp", "src/archon/core/string_span.hpp", "src/archon/core/vector.hpp", "src/archon/core/deque.hpp", "src/archon/core/file.cpp", "src/archon/image/file_format_png.cpp", "src/archon/image/buffered_image.hpp", "src/archon/image/image.hpp", "src/archon/display/x11_implementation.cpp", "src/archon/display/sdl_implementation.cpp",
      "src/archon/util/css_color.cpp", "src/archon/math/matrix.hpp", "src/archon/font/loader_freetype.cpp", "src/archon/render/noinst/engine_impl.cpp"],
     [("Buffer::at()", "src/archon/core/buffer.hpp"), ("Deque::at()", "src/archon/core/deque.hpp"), ("ScreenCount() / m_screen_slots", "src/archon/display/x11_implementation.cpp")],
     technique="type-checked syntax tree and control flow graphs: forward difference-bound dataflow (index <= limit + constant) with conditions, assertions, and loops, checked at every access by index, with a zero baseline",
     note="Reports only where a bound is known and is too weak by the analysis; an index for which no bound is known is not reported, and lower bounds are not examined. Sizes are related to sequences by their own size() and by conditions. " + CFRONT,
     rule="For every access s[i] for which the conditions on all paths establish i <= size(s) + d (or i <= n for an array of constant size), the least such d is negative (n is less than the size).",
     observe=["results", "crashes", "memory"])

prop("C25", "Containers create, move, and destroy exactly the elements they count",
     "At every point where a member function of the library's own containers (core::Vector by way of impl::VectorImpl, and the circular core::Deque) returns, throws, or calls operations of the element type in a loop, the constructed elements are exactly those at the positions that the container counts (from its offset, as many as its size, wrapped around the end of the allocated memory in the case of a deque): none is missing, destroyed twice, left behind in released memory, or created outside of that range. "
     "This includes failures (exceptions thrown by constructors of elements and by memory allocation) half way through an operation.",
     ["inputs", "histories", "faults"], "every exit, normal or by exception, of every member function of the two containers, for every size, offset, capacity, and argument, including every placement of wrapped ranges",
     "Which of the cases applies (contiguous, wrapped in the front, in the gap, or in the back; near the front or near the back; failure at this or that element) depends on the history of the container; tests visit a few of the combinations, and with elements whose constructors do not fail and whose double destruction is not noticed.",
     ["src/archon/core/deque.hpp", "src/archon/core/impl/vector_impl.hpp", "src/archon/core/vector.hpp", "src/archon/core/memory.hpp"],
     [("do_append_2(), erase_near_front(), erase_near_back(), realloc()", "src/archon/core/deque.hpp"), ("insert(), erase(), resize(), realloc(), move()", "src/archon/core/impl/vector_impl.hpp"), ("uninit_create(), uninit_destroy(), uninit_safe_move(), ...", "src/archon/core/memory.hpp")],
     technique="abstract interpretation of the type-checked syntax tree: linear forms for integers and pointers, and formal sums of half-lines for the set of constructed elements, positions in a circular container being taken modulo the allocated size; member functions are inlined, and every call that may throw is an exit",
     note="The operations on uninitialised memory (memory.hpp) are trusted to do what they say. Path conditions are used only where they make quantities equal. That memory suffices (capacity) is not decided, nor which elements (in which order) end up where. " + CFRONT,
     rule="At every exit of every non-const member function, and at the boundaries of loop steps, live(memory) = H(offset) - H(offset + size) for every container that takes part, and memory that no container owns holds nothing.",
     observe=["results", "crashes", "memory"])

prop("C11", "Long jumps skip no destructors and lose no failures",
     "The library reports failures through C code (libpng) by long jumps. No such jump passes over an object whose destructor does something (neither in the callback that starts it, nor in any function between it and the place where it lands, nor a temporary), and none leaves a try or a catch block. Every call that may end in a long jump happens while a place to land is in effect. "
     "A callback that starts a long jump has recorded why (the exception that it caught, or an error along with its error code), on every path; and where the jump lands, the operation fails: it never continues or reports success, never uses a variable that was modified since, and its caller rethrows the exception, if there is one.",
     ["faults", "inputs"], "every call of libpng and every callback for libpng in the image file format support, and every path through them",
     "Long jumps happen only when reading, writing, allocation, progress callbacks, or the file itself fail at that point; a skipped destructor is a leak or undefined behaviour that no test notices.",
     ["src/archon/image/file_format_png.cpp", "src/archon/image/file_format.hpp"],
     [("do_load(), do_save(), read_callback(), write_callback(), error_callback()", "src/archon/image/file_format_png.cpp")],
     technique="type-checked syntax tree, call graph (functions that may be left by a long jump), scopes of objects with destructors, and forward dataflow of what has been recorded before a jump, with a zero baseline",
     note="All functions of libpng other than those that create and destroy its structures are taken to be able to jump. " + CFRONT,
     rule="At every call that may jump: no object or temporary with a non-trivial destructor declared in the protected scope (or in the function) is alive, no try or catch block is active, and setjmp() protects it. At every longjmp(): the exception, or the error flag and the error code, is assigned on all paths. The landing branch ends in a failure.",
     observe=["results", "crashes", "resources"])
