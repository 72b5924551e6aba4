prop("D01", "Demangling any string is memory safe, terminates and appends a fallback",
     "Demangling an arbitrary NUL terminated string, as a symbol or as a type, never reads outside the string or any other object, always terminates and never modifies its input. The result is appended to the output string, and a non-empty input gives a non-empty result.",
     ["inputs"], "for every NUL terminated input string",
     "the demangler test feeds about a hundred well formed names; truncated or corrupt names (from stripped or foreign objects, or user code) are not among them",
     ["src/demangle.cxx", "include/libcwd/demangle.h"],
     [("demangle_symbol", "src/demangle.cxx"), ("demangle_type", "src/demangle.cxx"), ("session::decode_*", "src/demangle.cxx"), ("implementation_details", "include/libcwd/demangle.h")],
     "Bound: every byte string of 3 bytes after each of the listed prefixes.",
     observe=["the output string", "the input string", "memory accesses"])
prop("D02", "Literals in demangled names denote the encoded value",
     "Every integer, enumeration, bool and floating point literal in a mangled template argument is demangled to the value it encodes: integers digit for digit with sign and type, booleans as words, floating point literals as the decimal number that the given IEEE bits stand for (correctly rounded for float, exact enough to recover every double), with infinities and NaNs named. A floating point literal with a wrong digit is not demangled.",
     ["inputs"], "for every literal of every literal type",
     "the test suite contains a handful of literals; rounding carries, denormals and the extremes of the exponent range are not reached",
     ["src/demangle.cxx", "include/cwd_demangle.h"], [("decode_real", "src/demangle.cxx"), ("session::decode_literal", "include/cwd_demangle.h")],
     "Bound: floats and doubles are explored by every combination of three hexadecimal digits around chosen literals.")
prop("D03", "Well formed C++98 names are demangled to the declaration they encode",
     "Every symbol that a compiler forms for a C++98 entity by the Itanium C++ ABI is demangled to that entity's declaration: names, scopes, templates and their arguments, parameter types, qualifiers, operators, constructors, expressions, local and special names, with every substitution and template parameter replaced by what it refers to.",
     ["inputs"], "for every well formed mangled name",
     "the test suite contains about a hundred names; the interplay of substitutions, template parameters and declarator syntax in nested types has far more combinations",
     ["include/cwd_demangle.h", "src/demangle.cxx"],
     [("session::decode_type / decode_encoding / decode_name", "include/cwd_demangle.h"), ("qualifier_list::decode_qualifiers", "include/cwd_demangle.h"), ("decode_substitution", "include/cwd_demangle.h"), ("demangle_symbol", "src/demangle.cxx")],
     "Bound: type depth, number of parameters and forms as listed; vendor extensions, C++11 manglings and vector types are outside.")
prop("U01", "Glob style matching agrees with its definition",
     "Matching a name against a mask succeeds exactly when the mask, with each '*' standing for any (possibly empty) sequence of characters and each other character for itself, describes the whole name. Only the given bytes of the mask and the name are read.",
     ["inputs"], "for every mask and every name",
     "matching is only used on a few fixed masks by the tests; masks with several stars, empty masks or names are not reached",
     ["src/utils/match.cxx", "include/match.h"], [("_private_::match", "src/utils/match.cxx")])
prop("U02", "Printing characters and buffers escapes exactly the non-printable ones",
     "Every character is printed either as itself, or, if it is not printable or is a backslash, as its C escape sequence or else as a backslash, x and two hexadecimal digits. A buffer is printed as the concatenation of its characters, embedded NUL bytes included, and nothing outside it is read.",
     ["inputs"], "for every character value and every buffer",
     "no test covers it; characters with the high bit set and NUL bytes are the interesting ones",
     ["src/utils/char2str.cxx", "include/libcwd/char2str.h", "src/utils/buf2str.cxx", "include/libcwd/buf2str.h"], [("char2str::print_char_to / print_escaped_char_to", "src/utils/char2str.cxx"), ("operator<<(ostream&, buf2str)", "src/utils/buf2str.cxx")])
prop("U03", "Error numbers translate to their symbolic names for every value",
     "The name given for an error number is the name of the errno macro with that value, and for a value that has no name in the table it is a fixed text that says so; no value, negative or large, makes the lookup read outside its table.",
     ["inputs"], "for every int",
     "tests print one or two error numbers; values at or beyond the end of the table are not tried",
     ["src/strerrno.cxx", "include/libcwd/strerrno.h"], [("strerrno", "src/strerrno.cxx")])
prop("W01", "Every program counter belongs to the right symbol after any registrations",
     "After any sequence of function symbol registrations each address belongs to the symbol that the rules select among those covering it: DWARF symbols win over ELF symbols, smaller symbols win over larger ones, and of equals the first registered wins. The stored ranges are non-empty and disjoint, every stored fragment lies within its symbol's range, and a registration reports success exactly when it obtained addresses.",
     ["histories", "inputs"], "for every sequence of registrations with arbitrary address ranges and every address looked up",
     "a real executable only contains the overlap patterns its linker produced; zero sized, nested and partly overlapping ranges in every order are not reachable by a test",
     ["include/dwarf_symbol_ranges.h", "src/dwarf.cxx"], [("insert_function_symbol_range", "include/dwarf_symbol_ranges.h"), ("FunctionSymbolRanges", "include/dwarf_symbol_ranges.h")])
prop("L01", "A lockable_auto_ptr deletes its object exactly once and tracks ownership",
     "Whatever sequence of construction, copying, assignment, release, reset and locking is applied to lockable_auto_ptrs, every object is deleted exactly once, with the matching form of delete, when its owner is destroyed or reset, and never while another owner holds it. At most one pointer owns an object, and a locked pointer does not lose ownership when it is copied or assigned from.",
     ["histories"], "for every history of operations on several pointers",
     "the lockable_auto_ptr test runs one fixed sequence",
     ["include/libcwd/lockable_auto_ptr.h"], [("lockable_auto_ptr", "include/libcwd/lockable_auto_ptr.h")])
prop("O01", "One debug statement writes exactly the requested line to the right stream",
     "A Dout to a channel that is on writes the color-on string, margin, label, marker, indentation, message, the text of the errno at the start of the statement, color-off string and newline, in that order, each part left out or blanked exactly as the control flags ask. The line goes to the stream of the debug object, or to cerr when the flag says so, and the stream is flushed exactly when asked for. After a line with wait_cf one line of standard input is read, and the program goes on also when standard input ends.",
     ["inputs", "configurations"], "for every margin, marker, color string, indentation, errno value and combination of control flags",
     "no runnable test covers the output format; combinations of flags are too many to list by hand",
     ["src/debug.cxx", "include/libcwd/DebugObject.h", "include/libcwd/control_flag.h"],
     [("DebugObject_ThreadSpecificData::start / finish", "src/debug.cxx"), ("print_prefix", "src/debug.cxx"), ("Buffer::writeto", "src/debug.cxx")], observe=["bytes and flushes received by the stream buffer"])
prop("O02", "Interrupted and nested debug output is written completely and in order",
     "For every history of complete, nested and continued debug statements, on channels that are on or off, each message is written once and in order, an interrupted line is closed with <unfinished> and resumed with its own prefix and <continued>, and nested output is indented below its parent. All parts of a line go to one stream: cerr with cerr_cf or when nested in a line that goes there. After the last statement no text is left behind and the indentation is restored. That holds to a depth of (at least) 64; deeper output is written like that too or ends the program.",
     ["histories"], "for every history of Dout statements, nested evaluation, continued_cf, dc::continued, dc::finish, flush_cf, cerr_cf, on channels that are on or off",
     "the continued-output tests of the project cannot be built here and each run one fixed history",
     ["src/debug.cxx", "include/libcwd/DebugObject_ThreadSpecificData.h", "include/libcwd/private/DebugStack.h"],
     [("DebugObject_ThreadSpecificData::start / finish", "src/debug.cxx"), ("OutputState", "src/debug.cxx"), ("Buffer", "src/debug.cxx")])
prop("O03", "Margin and marker behave as strings under assign, append, prepend and push/pop",
     "After any sequence of assigning, appending, prepending, reserving, pushing and popping, the margin and the marker of a debug object hold exactly the bytes that ordinary string semantics give, whatever their length and including NUL bytes, and the text stays NUL terminated. A pushed value comes back with pop, and the strings printed by Dout are these bytes.",
     ["histories", "inputs"], "for every history of operations and every string",
     "tests only set a short margin; reallocation thresholds, embedded NULs and deep push/pop histories are not reached",
     ["include/libcwd/DebugString.h", "include/libcwd/DebugString.inl.h", "src/debug.cxx", "include/libcwd/DebugObject.h"], [("DebugString", "src/debug.cxx"), ("push_margin / pop_margin / push_marker / pop_marker", "include/libcwd/DebugObject.h")])
prop("O04", "On and off nest per debug object and channel; off output is not evaluated",
     "After any history of on, off, force_on and restore calls, a debug object or channel is on exactly when its own calls say so, independent of every other object or channel. A statement produces output exactly when both are on, and otherwise its arguments are not evaluated.",
     ["histories"], "for every history of on/off/force_on/restore calls on several objects and channels",
     "tests switch one channel on at the start",
     ["include/libcwd/DebugObject.h", "include/libcwd/DebugObject.inl.h", "include/libcwd/Channel.inl.h", "src/debug.cxx"],
     [("DebugObject::on/off/force_on/restore", "include/libcwd/DebugObject.inl.h"), ("Channel::on/off/force_on/restore", "src/debug.cxx"), ("LibcwDout", "include/libcwd/macro_Libcwd_macros.h")])
prop("O05", "Threads never mix, lose or reorder debug output and never race",
     "Whatever way threads interleave, every line written to a stream shared under a user supplied lock holds output of one thread, nothing is lost or reordered within a thread, and interrupted lines are marked and resumed. The lock is held during every write and free afterwards, and no two threads access the same memory without synchronization.",
     ["schedules"], "for every program of a few statements per thread and every schedule",
     "the threading tests cannot be built here and would sample a few schedules; the problems need a particular context switch",
     ["src/debug.cxx", "src/debug.cxx", "src/threading.cxx", "include/libcwd/private/LockInterface.h"],
     [("Buffer::writeto and OstreamState", "src/debug.cxx"), ("ThreadSpecificData / thread_ct", "src/threading.cxx")],
     tech="symbolic execution over all schedules (sleep-set reduction, happens-before race detection), decided by Z3 within bounds",
     note="Context switches happen at lock operations (and at atomic accesses for one of the configurations); code between them is covered by the data race check.")
prop("O06", "Combined channels and flags select the documented label and output",
     "A statement that names several channels produces output when any of them is on, with the label of the left most one that is on; dc::always counts as always on, and a channel with a false condition counts as off. Control flags apply whatever their position in the expression.",
     ["configurations", "inputs"], "for every combination of channel states, conditions and flags",
     "tests use single channels",
     ["include/libcwd/Channel.inl.h", "include/libcwd/ChannelSet.inl.h", "src/debug.cxx"], [("operator| on channels and flags", "include/libcwd/ChannelSet.inl.h"), ("ChannelSetData::operator|", "include/libcwd/ChannelSet.h")])
prop("O07", "The channel list is complete, ordered and padded, and lookup is exact",
     "After creating any set of channels, fatal channels included, the list visits every visible channel exactly once in label order, all labels are padded to one common width, indices are distinct, and only the channel labelled WARNING is on. Looking a channel up by a text returns a channel exactly when a visible label starts with that text, ignoring case, and then the last such label.",
     ["histories", "inputs"], "for every sequence of channel creations and every text looked up",
     "the tests create one or two channels with fixed labels",
     ["src/debug.cxx", "include/libcwd/Channel.h", "include/libcwd/debug.h"], [("Channel::NS_initialize", "src/debug.cxx"), ("FatalChannel::NS_initialize", "src/debug.cxx"), ("find_channel", "src/debug.cxx"), ("ForAllDebugChannels", "include/libcwd/LibcwdForAllDebugChannels.h")])
prop("O08", "A fatal statement writes its message completely before the process ends",
     "DoutFatal and every detected misuse of the library write and flush the whole message, with the right label and after closing interrupted output, before the process terminates: by abort for dc::core and misuses, with exit code 180 for dc::fatal, and accordingly for fatal channels that the program defines. Code after it never runs, and the lock of the stream is neither leaked nor taken twice, also when it was busy.",
     ["inputs", "histories", "crash_points"], "for every message, fatal statement or misuse, preceding output, lock state and color setting",
     "a test cannot survive the termination, so no test covers it",
     ["src/debug.cxx", "include/libcwd/macro_Libcwd_macros.h"], [("DebugObject_ThreadSpecificData::fatal_finish", "src/debug.cxx"), ("core_dump / OstreamState::try_lock_os", "src/debug.cxx"), ("assert_fail", "src/debug.cxx")])
prop("R01", "The rcfile switches channels and sets values exactly as its lines say",
     "Each line of the runtime configuration file is ignored (blank or starting with #), a syntax error that ends the program with a message, or one keyword and its trimmed value. After reading the file and an optional override file, every listed channel is on exactly when channels_default, channels_on, channels_off and channels_toggle with their comma separated, case insensitive masks say so, a channel turned off needs one on(), gdb and xterm hold the last value given, and nothing is printed after silent = on.",
     ["inputs", "histories"], "for every line of text and every history of lines in the file and the override file",
     "no test of the project reads a configuration file; errors need a particular combination of lines, initial states and the override file",
     ["src/utils/rcfile.cxx", "src/utils/match.cxx", "include/libcwd/RcFile.h"],
     [("RcFile::read", "src/utils/rcfile.cxx"), ("RcFile::process_channels / process_channel", "src/utils/rcfile.cxx"), ("set_all_channels_on / set_all_channels_off", "src/utils/rcfile.cxx")],
     note="The file is a stand-in at the level of std::getline; whether channels_on in an override file resets what the first file turned on while the default is off is left open (documentation and code disagree).")
prop("R02", "The rcfile is looked for in the documented places, in order",
     "The file named by LIBCWD_RCFILE_NAME, or .libcwdrc, is read from the current directory, else from $HOME, else from the home directory of the user, and only for the default name else from the installed default file. A directory of that name is skipped; an unreadable file, or none at all, ends the program with a message that names it. Reading a second time behaves the same, and no channel is left in another state.",
     ["configurations", "crash_points"], "for every combination of environment variables and existing, unreadable or missing files",
     "tests cannot control home directories, permissions and installed files",
     ["src/utils/rcfile.cxx"], [("RcFile::determine_rcfile_name", "src/utils/rcfile.cxx"), ("RcFile::S_exists", "src/utils/rcfile.cxx")])
prop("P01", "An address is looked up in the object file that is loaded there",
     "At any time, an address in a loadable segment of the executable, of a library that is loaded at startup, or of a library that was opened with dlopen and not yet unloaded, belongs to that object file, with its path, name and load base; any other address belongs to none. That holds after every history of dlopen and dlclose, by one or more threads; both return what the dynamic loader returns and call it exactly once.",
     ["histories", "schedules", "inputs"], "for every history of opening and closing libraries, every layout and every interleaving",
     "the tests open and close one library in one order; handles that are opened more than once, reused addresses and two threads are not reached",
     ["src/dwarf.cxx"], [("dlopen / dlclose", "src/dwarf.cxx"), ("ObjectFileRegistry::find_object_file", "src/dwarf.cxx"), ("cb_dl_iterate_phdr", "src/dwarf.cxx"), ("unregister_object_file_ranges", "src/dwarf.cxx")],
     "Libraries that are only loaded because a library that is opened needs them are outside: libcwd does not register those.")
prop("P02", "An address is attributed to the function that contains it",
     "For every address, the function name that pc_mangled_function_name and Location give is the linkage name (or else the name) of the smallest function in the debug information that contains it, or else of the smallest function symbol in the symbol tables that does; otherwise it is <unknown function>. Functions without name or with an empty, inverted or overflowing range, and symbols that are undefined, of size zero or no functions, are ignored. The debug information comes from the separate debug file if there is one. Symbols are loaded once per object file, by any number of threads. If some call of the ELF or DWARF libraries fails, then everything else is still used, and nothing is left open once the object file is closed.",
     ["inputs", "fault_sequences", "schedules", "histories"], "for every content of debug information and symbol tables, every failing library call and every interleaving",
     "the tests look up a few functions of well formed test programs; overlapping, odd or damaged symbol data and failing library calls are not reached",
     ["src/dwarf.cxx", "include/dwarf_symbol_ranges.h"], [("ObjectFile::find_symbol", "src/dwarf.cxx"), ("load_function_symbols / add_function_symbol", "src/dwarf.cxx"), ("load_elf_function_symbols / add_elf_function_symbol", "src/dwarf.cxx"), ("get_debug_info_path", "src/dwarf.cxx"), ("pc_mangled_function_name", "src/dwarf.cxx")],
     "libdw, libdwfl, libelf and the loader are stand-ins that serve symbolic data.")
prop("P03", "A Location tells and prints what is known about its address",
     "A Location reports the object file, the innermost inlined function with a name that covers the address or else the function itself, and, exactly when both are known, the source file (with and without directories) and the line number. Printing it gives these in the documented form for every location_format. That holds after every history of constructing, copying, assigning, looking up, clearing and locking locations; the path is freed exactly once, when its owner goes.",
     ["inputs", "histories"], "for every debug information of a function, every format and every history of operations",
     "the tests print a few locations of well formed programs; partial line information, nested inlining without names and longer histories of copies are not reached",
     ["src/location.cxx", "src/dwarf.cxx", "include/libcwd/Location.h", "include/libcwd/Location.inl.h"], [("Location::pc_location", "src/location.cxx"), ("Location::operator= / clear", "src/location.cxx"), ("print_location_on", "include/libcwd/Location.inl.h"), ("SymbolRange::lookup_location", "src/dwarf.cxx"), ("innermost_inline_name_by_pc", "src/dwarf.cxx")],
     "A location that outlives its library, or whose path was freed with its owner, is outside; so is locking a location, clearing it, and then copying it. When compiled with clang (as the checks are), a line number 0 is replaced by that of one of the next instructions.")
prop("I01", "Channels, state and margin start as configured, in main and in every thread",
     "After init() each debug channel is on exactly when the runtime configuration file turned it on, whatever happened to it before. A thread that calls init_thread starts with the channels of that file, with those of main, or with everything off, as its thread_init_t or else the default asks for, independent of channels that were created later; its debug object is on unless that says otherwise, and its margin is its name cut or padded to 16 characters, or its thread id. Other threads are not affected, the debug stream gets a lock, and nothing races.",
     ["configurations", "schedules", "histories"], "for every set of channels the rcfile turns on, default and given thread state, thread name and interleaving",
     "no test of the project calls init_thread; channels that appear after init() and threads that start together are not reached",
     ["src/init_functions.cxx", "include/libcwd/init_functions.h", "src/threading.cxx"], [("init / init_thread", "src/init_functions.cxx"), ("rcfile_dc_states", "src/init_functions.cxx"), ("main_reached / save_dc_states", "src/init_functions.cxx")],
     note="Reading the rcfile itself is R01; here it is a stand-in that turns on a set of channels. copy_from_main while main changes its own channels is outside.")
prop("I02", "Indent, Mark and DoutEntering scopes nest and restore what they changed",
     "Inside any nesting of Indent, Mark and DoutEntering scopes every line is printed with the marker and the indentation that the open scopes ask for. Leaving a scope, or ending a Mark early, restores exactly what that scope changed and keeps changes of the indentation made inside it.",
     ["programs", "inputs"], "for every nesting of scopes and every mark",
     "no test of the project uses these classes",
     ["include/libcwd/debug.h", "src/debug.cxx", "include/libcwd/DebugObject.h"], [("Indent", "include/libcwd/debug.h"), ("Mark", "src/debug.cxx"), ("LibcwDoutScopeBegin / DoutEntering", "include/libcwd/macro_Libcwd_macros.h")])
prop("T01", "The stream and its lock can be replaced while other threads write",
     "When a thread replaces the stream of a debug object, its lock, or both, then at every moment each other thread writes its lines completely to a stream that is set, holding the lock that was set together with it; no line is lost, and once set_ostream returned neither the replaced stream nor the replaced lock is used again. get_ostream and has_mutex tell what is set, also for a thread that holds the lock. Nothing waits forever and nothing races.",
     ["schedules", "programs"], "for every program of writers and replacements and every schedule",
     "it takes a context switch between reading the lock and locking it to use a replaced one",
     ["include/libcwd/DebugObject.inl.h", "include/libcwd/DebugObject.h", "src/debug.cxx", "include/libcwd/private/LockInterface.h"],
     [("OstreamState::set_ostream / replace_with", "include/libcwd/DebugObject.inl.h"), ("OstreamState::get_locked_os", "include/libcwd/DebugObject.inl.h"), ("Buffer::writeto", "src/debug.cxx")],
     tech="symbolic execution over all schedules (sleep-set reduction, happens-before race detection), decided by Z3 within bounds",
     note="Context switches happen at lock operations and atomic accesses; code between them is covered by the data race check. One known finding: a recursive lock held while using Dout can deadlock.")
prop("Y01", "type_info_of reports exactly the type it was asked for",
     "type_info_of<T>() tells the mangled and demangled name of exactly T, including its references and cv-qualifiers and those of array elements, with every substitution numbered as in the name of T itself, the size of T and, for a pointer to a complete type, the size of what it points to; type_info_of(object) tells the same of the type of the object without qualifiers. Every call for the same type returns the same object, also when several threads ask for it for the first time.",
     ["inputs", "schedules"], "for every type of the listed forms and every schedule of two threads",
     "the type_info test covers a few types; the numbering of substitutions goes wrong only for particular names",
     ["src/type_info.cxx", "include/libcwd/type_info.h"], [("extract_exact_name", "src/type_info.cxx"), ("libcwd_type_info_exact<T>::value", "include/libcwd/type_info.h"), ("TypeInfo::init / make_label", "include/libcwd/type_info.h")])
prop("C01", "A reference counted object is destroyed exactly once, with its last reference",
     "An object derived from AIRefCount is destroyed exactly once: when the last reference to it, from intrusive pointers, intrusive_ptr_add_ref and inhibit_deletion together, is given up, and not before. That last release destroys it, unless it is an allow_deletion with deferred deletion, which then tells the caller to do so. Everything that any thread did with the object before it gave up its references happens before the destructor. inhibit_deletion and allow_deletion return the previous count; a copy of an object starts without references and assigning or swapping objects does not change their counts.",
     ["schedules", "programs", "histories"], "for every program of threads that take and give up references and every schedule",
     "no test of the project uses it; a wrong memory order or a lost decrement needs a particular context switch",
     ["include/utils/AIRefCount.h"], [("intrusive_ptr_release", "include/utils/AIRefCount.h"), ("inhibit_deletion / allow_deletion", "include/utils/AIRefCount.h")],
     tech="symbolic execution over all schedules (sleep-set reduction, happens-before race detection), decided by Z3 within bounds")
prop("G01", "attach_gdb starts the configured debugger and waits until it attached",
     "attach_gdb() writes a gdb.cmds that sets a breakpoint where it returns to and ends the wait, executes the xterm value of the rcfile in a child, with every %s replaced by the command line of the debugger for this process and %% by %, and returns when the debugger reset libcwd_attach_gdb_hook, leaving the debug output on or off as it was. Otherwise it ends the program with a message: when gdb is not set or is too long, fork fails, or the debugger ends before it attached; then the exit code or signal is told if it is known.",
     ["configurations", "fault_sequences"], "for every value of gdb and xterm and everything that fork, system and waitpid can do",
     "no test of the project can start a debugger; the failures do not occur in ordinary use",
     ["src/utils/attach_gdb.cxx", "include/libcwd/attach_gdb.h"], [("attach_gdb", "src/utils/attach_gdb.cxx")],
     note="The processes, the clock and the file are stand-ins. xterm values that do not contain %s are passed on as they are.")
prop("S01", "Debug output works in constructors of globals, in every order of initialization",
     "Once initialize() was called, or a debug object was constructed, debug output works in the constructor of any global object, also when the global objects of libcwd itself are constructed later, and in whatever order. What was set by then (the stream and its lock, flushing, channels, format and indentation) is still so afterwards and in main. Channels and debug objects that are constructed before those of libcwd are registered once and are independent.",
     ["programs", "configurations"], "for every program of such a constructor and every order of initialization",
     "the tests link with a shared library, which is always initialized first",
     ["src/debug.cxx", "include/libcwd/DebugObject.h", "include/libcwd/DebugObject.inl.h"], [("initialize / ST_initialize_globals", "src/debug.cxx"), ("DebugObject::NS_init", "src/debug.cxx"), ("Channel::NS_initialize", "src/debug.cxx"), ("DebugObject::DebugObject", "include/libcwd/DebugObject.inl.h")],
     note="Using libcw_do before initialize() and reading the rcfile before main are outside.")
prop("E01", "The debug state of a thread lives exactly as long as the thread",
     "Every thread starts with a debug state of its own: all debug objects and channels are off, with the default margin, marker and indentation. What a thread does with it is seen by that thread only. The state is usable until the thread ends, also in destructors of thread_local objects that were constructed after the first use of libcwd; when the thread is gone all memory of its state is freed, exactly once, whatever was pushed and not popped. The states of other threads do not change when a thread ends.",
     ["schedules", "programs", "histories"], "for every program of threads that use libcwd and end, and every schedule",
     "the tests do not look at the memory of a thread that ended nor at the state a thread starts with",
     ["src/threading.cxx", "src/debug.cxx"], [("ThreadSpecificData::instance / cleanup_routine", "src/threading.cxx"), ("DebugObject_ThreadSpecificData", "src/debug.cxx")],
     tech="symbolic execution over all schedules (sleep-set reduction, happens-before race detection) with an account of all live heap memory, decided by Z3 within bounds",
     note="A thread that ends within a dc::finish that is still to come (continued_cf) is a misuse and left out. Known finding: a thread_local object that is older than the state of its thread and uses libcwd when it is destructed.")
prop("M01", "Messages of any length are written whole and nothing stays allocated",
     "A message of any length is written once and unchanged, also when it is written in parts or interrupted. When debug output, nested or interrupted in any way, a Location, Indent or Mark, or the demangling of any name, valid or not, is done, everything that was allocated for it is freed again, exactly once.",
     ["programs", "histories", "inputs"], "for every program of debug output, scopes and locations, and every name that is demangled",
     "the tests do not look at memory, and have no messages that are too long for the buffer on the stack",
     ["src/debug.cxx", "src/location.cxx", "src/dwarf.cxx", "src/demangle.cxx"], [("Buffer::writeto", "src/debug.cxx"), ("DebugObject_ThreadSpecificData::finish", "src/debug.cxx"), ("demangle_type / demangle_symbol", "src/demangle.cxx")],
     tech="symbolic execution with an account of all live heap memory, decided by Z3 within bounds",
     note="Caches that are filled once (object files, debug information, rcfile settings) are not counted.")
prop("V01", "What libcwd prints by itself obeys the environment and changes no settings",
     "With LIBCWD_NO_STARTUP_MSGS nothing is printed before main, unless the program is terminated. Otherwise a warning tells the hard limit of the core size when that is finite and not zero. With LIBCWD_PRINT_LOADING (and not the former) the shared libraries that are there, loaded and unloaded are shown, even when libcw_do or dc::elfutils is off; without it only when both are on. The soft limit of the core size becomes the hard limit; when that fails the program ends with a message. Afterwards every debug object and channel is on or off, and as often turned off, as before.",
     ["configurations", "histories"], "for every environment, every limit and every history of turning things on and off and loading libraries",
     "the tests run in one environment",
     ["src/environ.cxx", "src/debug.cxx", "src/dwarf.cxx"], [("process_environment_variables", "src/environ.cxx"), ("ST_initialize_globals / force_on / restore", "src/debug.cxx"), ("ForceLoadingDebugOutput", "src/dwarf.cxx")],
     note="The process and the dynamic loader are stand-ins. The text of the lines about libraries is not fixed, apart from the path.")
prop("N01", "Without CWDEBUG no debug code is left and DoutFatal still ends the program",
     "In a program that is compiled without CWDEBUG, and includes the nodebug.h that comes with libcwd, the arguments of Dout, Debug, LibcwDout, LibcwDebug and the ForAll macros are not evaluated and need not even be declared; each is one (empty) statement. DoutFatal and LibcwDoutFatal evaluate their arguments once, write them and a newline to std::cerr, and call exit with EXIT_FAILURE.",
     ["programs", "inputs"], "for every program of these statements, and every message",
     "the tests compile one program that way",
     ["nodebug.h"], [("Dout / DoutFatal / Debug", "nodebug.h")])
