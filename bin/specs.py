from sxlib import Run
PROPS = {}
DEM = ["demangle"]


def dsafe(entry, n, prefix="", suffix="", time=150, alphabet=None):
    d = ["-DNN=%d" % n, '-DPREFIX="%s"' % prefix, '-DSUFFIX="%s"' % suffix]
    if alphabet: d.append('-DALPHABET="%s"' % alphabet)
    return Run("demangle_safety", entry, DEM, d, time=time, covers=["returned"],
               bounds="every input '%s' + %d arbitrary bytes%s + '%s'" % (prefix, n, " of '" + alphabet + "'" if alphabet else "", suffix))


PREFIXES = ["_Z", "_Z1fIL", "_Z1fIX", "_ZT", "_ZN", "_Z1fS", "_ZNSt", "_Z1fF", "_Z1fA", "_Z1fM", "_ZZ1f", "_Z12_GLOBAL_", "_ZN1fI", "_Z1fIiET", "_GLOBAL_"]
CONTEXTS = [("_ZN1aIiE1fI", "EEvT_"), ("_ZN1aIiE1fIX", "EEEvT_"), ("_ZN1acv", "IiEEv"), ("_ZZ1fP1AE", ""), ("_ZN1acvT_I", "EEv")]
PROPS["D01"] = dict(quick=[dsafe("h_type", 3), dsafe("h_type", 6, alphabet="NKSTILXEPRFMAvi1C_0G"), dsafe("h_symbol", 6, "_Z", alphabet="NKSTILXEZPFMAvi1fC_0"),
                           dsafe("h_symbol", 7, "_Z1fI", "EEvT_", alphabet="T_SIEXLZi1A"), dsafe("h_symbol", 7, "_ZN1AIiEcv", "EEv", alphabet="T_SIEPFN1A0"),
                           dsafe("h_symbol", 6, "_Z1fIXadL_Z", "EEEvT_S_S0_", alphabet="N1ASIE_iPT0v")] +
                          [dsafe("h_symbol", 3, p) for p in PREFIXES] + [dsafe("h_symbol", 3, p, s) for p, s in CONTEXTS],
                    thorough=[dsafe("h_type", 7, alphabet="NKSTILXEPRFMAvi1C_0G", time=900), dsafe("h_symbol", 7, "_Z", alphabet="NKSTILXEZPFMAvi1fC_0", time=900),
                              dsafe("h_symbol", 8, "_Z1fI", "EEvT_", alphabet="T_SIEXLZi1A", time=900), dsafe("h_symbol", 8, "_ZN1AIiEcv", "EEv", alphabet="T_SIEPFN1A0", time=900),
                              dsafe("h_symbol", 8, "_Z1fIXadL_Z", "EEEvT_S_S0_", alphabet="N1ASIE_iPT0v", time=900)] +
                             [dsafe("h_symbol", 3, p) for p in PREFIXES] + [dsafe("h_symbol", 3, p, s) for p, s in CONTEXTS])


def dreal(lit, where):
    return Run("demangle_literal", "h_real", DEM, ['-DLIT="%s"' % lit, "-DWHERE={%s}" % where], time=100, covers=["value"], bounds="%s literal %s with every value of digits %s" % ("double" if len(lit) == 16 else "float", lit, where))


FLOATS = [("3f9dcccd", "0,1,2"), ("3f9dcccd", "5,6,7"), ("00000001", "5,6,7"), ("7f7fffff", "1,2,3")]
DOUBLES = [("3ff3333333333333", "0,1,2"), ("3ff3333333333333", "13,14,15"), ("0000000000000001", "3,14,15"), ("7fefffffffffffff", "3,8,15"), ("00100000fffffff0", "0,2,14")]
INTS = Run("demangle_literal", "h_int", DEM, ["-DDIGITS=12"], time=100, covers=["returned", "bool"], bounds="18 integral and enumeration types, every number of at most 12 digits, 4 contexts")
BADREAL = Run("demangle_literal", "h_badreal", DEM, [], time=100, covers=["returned"], bounds="a float and a double literal, every byte at every position that is not a hexadecimal digit")
PROPS["D02"] = dict(quick=[INTS, BADREAL] + [dreal(*l) for l in FLOATS + DOUBLES],
                    thorough=[INTS, BADREAL] + [dreal(l, "%d,%d,%d" % w) for l in ("3f9dcccd", "00000001", "7f7fffff") for w in ((0, 1, 2), (1, 2, 3), (2, 3, 4), (3, 4, 5), (4, 5, 6), (5, 6, 7))] +
                             [dreal(l, "%d,%d,%d" % w) for l in ("3ff3333333333333", "0000000000000001", "7fefffffffffffff", "00100000fffffff0") for w in ((0, 1, 2), (2, 3, 4), (4, 5, 6), (6, 7, 8), (8, 9, 10), (10, 11, 12), (13, 14, 15))])


def gram(depth, params, names=0xff, classes=0x7ff, builtins=1, shapes=0x7ff, time=150):
    return Run("demangle_grammar", "h_grammar", DEM, ["-DDEPTH=%d" % depth, "-DPARAMS=%d" % params, "-DNAMES=0x%x" % names, "-DCLASSES=0x%x" % classes, "-DBUILTINS=%d" % builtins, "-DSHAPES=0x%x" % shapes], time=time, covers=["returned"],
               bounds="functions with %d parameters of type depth %d; name forms 0x%x, class forms 0x%x, type constructors 0x%x, %d builtin types; one arbitrary identifier character" % (params, depth, names, classes, shapes, builtins))


def other(entry, what, depth=1, ops=18, **kw):
    return Run("demangle_other", entry, DEM, ["-DDEPTH=%d" % depth, "-DOPS=%d" % ops], covers=["returned"], bounds=what, **kw)


OTHER = [other("h_operator", "46 operators in 5 contexts"), other("h_cast", "cast operators, 11 types and 6 templates in 4 contexts"), other("h_ctor", "6 kinds of constructors and destructors, 6 classes, 4 argument lists"),
         other("h_special", "vtables, VTT, typeinfo, guard variables, construction vtables and thunks with every offset of at most 3 digits, 6 classes"),
         other("h_local", "6 local entities in 11 functions, every discriminator of at most 3 digits"), other("h_expr", "expressions of depth 1 over 24 operators, conditional and cast"),
         other("h_seqid", "each of the first 120 substitutions, and ten of those from 360 to 433"), other("h_name", "identifiers of 1, 2, 3, 9, 10, 11 characters"), other("h_anon", "names of 9, 10, 12, 13 characters that start with _GLOBAL_"),
         other("h_global", "global constructors and destructors keyed to every string of at most 4 bytes")]
GRAM = [gram(3, 1, 1, 1), gram(1, 2, 1), gram(1, 2, 0xb0, 3, 2, 0x40f), gram(2, 1, 0x10, 1, 1, 0x5fd), gram(2, 1, 0x10, 1, 1, 0x47f), gram(2, 1, 1, 3), gram(1, 2, 0x4f, 0x7f, 1, 6), gram(1, 2, 0x4f, 0x78c, 1, 6),
        gram(2, 1, 0x40, 0x7f, 1, 6), gram(2, 1, 0x40, 0x71, 1, 7), gram(3, 3, 0x41, 1, 1, 7), gram(1, 1, 1, 0x7ff, 21, 5), gram(2, 2, 1, 1, 1, 0x7e),
        gram(6, 1, 1, 1, 1, 0x45), gram(5, 1, 1, 1, 1, 0x155), gram(4, 1, 1, 1, 1, 0x1dd), gram(4, 1, 1, 1, 1, 0x385)]
PROPS["D03"] = dict(quick=GRAM + OTHER, thorough=GRAM + OTHER + [gram(3, 1, 1, 3, 1, time=900), gram(2, 2, 1, 1, 1, 0x1ff, time=900), gram(1, 2, 0xff, 3, 2, 0x40f, time=900), gram(2, 1, 0x50, 3, 1, 0x7ff, time=900),
                    other("h_expr", "expressions of depth 2 over 2 unary and 2 binary operators, conditional and cast", 2, 2)])


def match(ml, nl, stars=False, **kw):
    d = ["-DML=%d" % ml, "-DNL=%d" % nl] + (["-DSTARS"] if stars else [])
    return Run("match", "h_match", ["utils/match"], d, covers=["matched", "mismatched"],
               bounds="every mask of at most %d and every name of at most %d %s" % (ml, nl, "characters (mask: * a b; name: a b)" if stars else "arbitrary non-NUL bytes"), **kw)


PROPS["U01"] = dict(quick=[match(3, 3), match(5, 4, True)], thorough=[match(4, 4, time=900), match(6, 6, True, time=900)])
PROPS["U02"] = dict(quick=[Run("char2str", "h_char2str", ["utils/char2str"], [], covers=["done"], bounds="every char"),
                           Run("char2str", "h_buf2str", ["utils/char2str"], ["-DNN=2"], covers=["done"], bounds="every buffer of at most 2 bytes")])
PROPS["U03"] = dict(quick=[Run("strerrno", "h_strerrno", ["strerrno"], [], covers=["known", "unknown"], bounds="every unsigned int")])


def ranges(k, ty="uintptr_t", **kw):
    return Run("symbol_ranges", "h_ranges", [], ["-DKK=%d" % k, "-DTT=" + ty], covers=["split", "first-kept", "last-won"],
               bounds="every sequence of %d insertions, any %s, any provenance, any looked up address" % (k, "64 bit addresses" if ty == "uintptr_t" else "addresses 0x400000 + 8 bits"), **kw)


PROPS["W01"] = dict(quick=[ranges(2), ranges(3, "uint8_t")], thorough=[ranges(3, time=1800), ranges(4, "uint8_t", time=1800)])


def aptr(ops, p, arr="false", **kw):
    return Run("auto_ptr", "h_auto_ptr", [], ["-DOPS=%d" % ops, "-DPP=%d" % p, "-DARR=" + arr], covers=["end"], bounds="every history of %d operations on %d pointers%s" % (ops, p, " to arrays" if arr == "true" else ""), **kw)


PROPS["L01"] = dict(quick=[aptr(5, 2), aptr(4, 3), aptr(4, 2, "true")], thorough=[aptr(6, 3, time=1500), aptr(6, 2, "true", time=900)])
DBG = ["debug", "environ", "threading", "strerrno", "location", "dwarf"]


def fmt(defs, bounds, **kw):
    kw.setdefault("max_instr", 1000000)
    return Run("format", "h_format", DBG, defs, covers=["end"], bounds="one Dout, data of 2 arbitrary bytes, any errno >= 0, always_flush on or off, " + bounds, **kw)


F1 = "margin and marker of at most %d arbitrary non-NUL bytes, indentation 0..2, any combination of nonewline, noprefix, nolabel, blank_margin, blank_label, blank_marker and flush"
F2 = "color_on and color_off of at most %d arbitrary non-NUL bytes, indentation 0..2, any combination of nonewline, noprefix, nolabel, cerr, wait and flush"
F3 = "any combination of nonewline, noprefix, error and cerr"
PROPS["O01"] = dict(quick=[fmt(["-DLL=2"], F1 % 2), fmt(["-DLL=2", "-DCOLORS"], F2 % 2), fmt(["-DERRNO"], F3)],
                    thorough=[fmt(["-DLL=4"], F1 % 4, time=1500), fmt(["-DLL=4", "-DCOLORS"], F2 % 4, time=1500), fmt(["-DERRNO"], F3)])


def nested(ops, depth, colors=False, cerr=False, **kw):
    return Run("nested", "h_nested", DBG, ["-DOPS=%d" % ops, "-DDEPTH=%d" % depth] + (["-DCOLORS"] if colors else []) + (["-DCERR"] if cerr else []), covers=["end"] + ([] if cerr else ["unfinished"]),
               bounds="every history of at most %d operations (Dout, Dout whose argument runs further operations, begin, continue, finish; channel on or off; with or without %s), nesting at most %d%s" %
               (ops, "cerr_cf" if cerr else "flush_cf", depth, ", with color strings" if colors else ""), **kw)


DEEP = Run("nested", "h_deep", DBG, ["-DDEEP", "-DCAPSIZE=60000"], covers=["end", "as deep as it goes", "too deep"], bounds="5, 62 to 66 and 70 levels of nested, continued or alternating output, twice")
PROPS["O02"] = dict(quick=[nested(5, 3, time=400), nested(4, 3, True), nested(4, 3, False, True), DEEP], thorough=[DEEP, nested(6, 4, time=1500), nested(6, 4, True, time=1500), nested(6, 4, False, True, time=1500)])


def threads(stmts, kinds, n=2, **kw):
    return Run("threads", "h_threads", DBG, ["-DSTMTS=%d" % stmts, "-DKINDS=%d" % kinds, "-DNT=%d" % n], covers=["end"] + (["no newline"] if kinds > 2 else []),
               bounds="%d threads, every program of %d statements each out of the first %d of {Dout, continued+flush/finish, nonewline/noprefix, continued/Dout/finish, continued+flush/continued/finish, nonewline (last only), continued+flush/finish+nonewline without text (last only)}, every schedule with context switches at lock operations%s" % (n, stmts, kinds, " and atomic accesses" if kw.get("atomics") else ""), **kw)


PROPS["O05"] = dict(quick=[threads(2, 4), threads(1, 7, atomics=True), threads(1, 2, 3)],
                    thorough=[threads(2, 7, time=1500), threads(3, 3, time=2400), threads(1, 3, 3, time=1500), threads(2, 4, atomics=True, time=1500), threads(1, 2, 3, atomics=True, time=1500)])

def dstring(ops, nl, **kw):
    return Run("dstring", "h_dstring", DBG, ["-DOPS=%d" % ops, "-DNL=%d" % nl], covers=["end", "reserve", "pop"],
               bounds="every history of %d operations on margin or marker (assign, append, prepend with a char array or std::string, reserve, push, pop); lengths from the first %d of {0,1,2,62,63,64,127,130}; first and last byte arbitrary (NUL included)" % (ops, nl), **kw)


PROPS["O03"] = dict(quick=[dstring(2, 8), dstring(3, 4)])


def onoff(ops, **kw):
    return Run("onoff", "h_onoff", DBG, ["-DOPS=%d" % ops], covers=["on", "off", "restored"],
               bounds="every history of %d operations (on, off, force_on, restore) on two debug objects and two channels, then a Dout to every combination" % ops, **kw)


PROPS["O04"] = dict(quick=[onoff(4)], thorough=[onoff(6, time=2400)])
PROPS["O06"] = dict(quick=[Run("chanset", "h_chanset", DBG, [], covers=["on", "off"],
                               bounds="1 to 3 channels out of 4, each on or off and with a true or false condition, optionally dc::always, flags in two positions: any combination of nonewline, noprefix, nolabel, blank_label and flush")])


def registry(k, words, sym, probe, **kw):
    return Run("registry", "h_registry", DBG, ["-DKK=%d" % k, "-DWORDS=%d" % words, "-DSYM=%d" % sym, "-DPROBE=%d" % probe], covers=["found", "not found"] if probe else ["found"],
               bounds="every sequence of %d new channels, visible or hidden, with a label from the first %d of {empty, W, WARNING, WARNINGS, TENLETTERS, SIXTEENLETTERSXX}%s; every find_channel argument of at most %d printing characters" %
               (k, words, " or any %d printing characters" % sym if sym else "", probe), **kw)


PROPS["O07"] = dict(quick=[Run("registry", "h_wide", DBG, ["-DKK=3"], covers=["end"], bounds="3 new channels, each visible, hidden or fatal (either mask), with labels of 1 to 16 characters, in any order"),
                           registry(2, 6, 0, 3), registry(3, 6, 0, 0), registry(2, 0, 1, 1),
                           Run("registry", "h_list", DBG, [], covers=["listed"], bounds="list_channels_on of two debug objects, on, off or twice on; 2 new channels, visible or hidden, on or off, with labels of 1 to 16 characters; margin of at most 2 arbitrary bytes, indentation 3")])


def fatals(n, kinds, **kw):
    return Run("fatal_threads", "h_fatal_threads", DBG, ["-DNT=%d" % n, "-DKINDS=%d" % kinds], covers=["abort", "exit"],
               bounds="%d threads that each end in one of the first %d of {DoutFatal(dc::fatal), DoutFatal(dc::core), Dout and either of these, core_dump()}, every schedule with context switches at lock operations%s" % (n, kinds, " and atomic accesses" if kw.get("atomics") else ""), **kw)


FATAL = Run("fatal", "h_fatal", DBG, [], covers=["abort", "exit"],
            bounds="17 fatal statements and misuses, with fatal channels of the program too, x 4 preceding histories x user lock (free, or busy once or twice) x colors; message of 2 arbitrary bytes")
PROPS["O08"] = dict(quick=[FATAL, fatals(2, 5, atomics=True), fatals(3, 4)], thorough=[FATAL, fatals(2, 5, atomics=True), fatals(3, 4, atomics=True, time=1500), fatals(3, 5, atomics=True, time=1500)])
RCF = DBG + ["utils/rcfile", "utils/match"]


def rc(entry, defs, bounds, covers=("end",), **kw):
    return Run("rcfile", entry, RCF, defs, covers=list(covers), bounds=bounds, **kw)


def rcl(n, **kw):
    return rc("h_rc_line", ["-DNSYM=%d" % n], "every line of at most %d arbitrary bytes, followed by a known line" % n, ["keyword", "ignored", "fatal"] + (["known"] if n > 3 else []), **kw)


def rclq(n, **kw):
    return rc("h_rc_line", ["-DNSYM=%d" % n, "-DEQ=\"=\""], "every line of at most %d arbitrary bytes, '=', and at most %d arbitrary bytes" % (n, n), ["keyword", "ignored", "fatal"], **kw)


def rcm(n, **kw):
    return rc("h_rc_masks", ["-DNSYM=%d" % n], "channels_toggle, channels_on or channels_off with every list of at most %d arbitrary bytes except NUL and newline, NOTICE and ELFUTILS on or off before" % n, **kw)


def rcf(n, start, **kw):
    return rc("h_rc_files", ["-DLINES=%d" % n, "-DSTART=%d" % start],
              "every history of %d lines, in one file or divided over the file and the override file, out of channels_default on/off/bad, toggle/on/off with three lists, silent on/off, gdb and xterm%s" %
              (n, "; NOTICE, WARNING and ELFUTILS on, off, or off twice before" if start else ""), ["end", "fatal"], **kw)


PROPS["R01"] = dict(quick=[rcl(5), rclq(3), rcm(3), rcf(2, 1), rcf(3, 0)], thorough=[rcl(6), rclq(4, time=900), rcm(4, time=1500), rcf(3, 1, time=900), rcf(4, 0, time=1500)])
PROPS["R02"] = dict(quick=[rc("h_rc_where", [], "every combination of LIBCWD_RCFILE_NAME set or not, HOME unset, empty or set, home directory from the passwd file unknown, equal or different; each candidate absent, a file, unreadable or a directory; read once or twice, with or without an override file", ["end", "fatal"])])


def obj(entry, defs, bounds, covers=["end"], **kw):
    return Run("objects", entry, DBG, defs, covers=covers, bounds=bounds, **kw)


HIST = "every history of %d calls of dlopen (%s) and dlclose, in any order, any looked up address in a loaded or unloaded object; %s"
TWOLIBS = "an executable, 2 startup libraries (one without loadable segments), the vdso and 2 other libraries; "


def hist(n, lean=False, **kw):
    return obj("h_history", ["-DOPS=%d" % n] + (["-DLEAN"] if lean else []), HIST % (n, "startup or other library" if lean else "null, empty, missing, startup or other library, plain, NOLOAD or NODELETE, with or without a constructor that opens another library", TWOLIBS), ["end", "unmapped", "startup", "dlopen"], **kw)


def objects(seg, **kw):
    return [obj("h_history", ["-DOPS=1", "-DLONGNAME"], "one dlopen, an executable with a path of 254 to 257, 511 to 513 or 700 characters", **kw),
            obj("h_segments", ["-DSEGS=%d" % seg, "-DLIBS=%d" % (2 if seg < 3 else 1)], "every layout of %d segments (loadable or not, empty or not) of dlopen-ed libraries, any address" % seg, **kw),
            obj("h_two_open", [], "two threads that each open a library that may be the same and may be a startup library, every interleaving of lock operations and atomic accesses; the closes afterwards", atomics=True, **kw),
            obj("h_two_close", [], "two threads that open, use and close different libraries, every interleaving; an address is not reused", **kw),
            obj("h_reuse", [], "the same, while the loader reuses addresses and handles at once", **kw)]


PROPS["P01"] = dict(quick=[hist(3), hist(4, True)] + objects(2), thorough=[hist(4, time=1500), hist(5, True)] + objects(3, time=900) + [obj("h_two_close", [], "two threads that open, use and close different libraries, every interleaving of lock operations and atomic accesses; an address is not reused", atomics=True, time=900), obj("h_reuse", ["-DSAME=1"], "two threads that open, use and close the same library, every interleaving", time=900)])


def sym(entry, defs, bounds, covers=["end"], **kw):
    return Run("symbols", entry, DBG, defs, covers=covers, bounds=bounds, **kw)


SC = ["end", "debug information", "symbol table", "unknown"]


def symr(f, r, e, wide=False, **kw):
    return sym("h_symbols", ["-DNF=%d" % f, "-DNR=%d" % r, "-DNE=%d" % e] + ([] if wide else ["-DTT=uint8_t"]), "debug information of %d function(s) with %d address range(s) each and symbol tables with %d symbol(s): any %d bit addresses and sizes, any symbol type, binding and section; any address in the object file" % (f, r, e, 64 if wide else 8), SC, **kw)


SRC = sym("h_sources", [], "2 functions with every combination of linkage name, MIPS linkage name, name and a failure (no CU DIE, no functions, failing or empty ranges); or 2 symbols that each can be unreadable or have no name, no entry size or any section type; or any debug file and a failure of any single call of libdwfl, libdw, libelf or open; 3 lookups", SC)
TWO = sym("h_two", [], "two threads that look up addresses in the same object file for the first time, every interleaving of lock operations and atomic accesses", atomics=True)
UNL = "a library that is opened, looked into (at most %d lookups) and closed, twice, with any debug file and a failure of any single call"
PROPS["P02"] = dict(quick=[symr(1, 1, 1, True), symr(2, 1, 1), symr(1, 1, 2), SRC, sym("h_unload", [], UNL % 1),
                           TWO],
                    thorough=[symr(2, 1, 1, True, time=900), symr(1, 2, 1, True, time=900), symr(2, 1, 2, time=1200), SRC, sym("h_unload", ["-DLOOKUPS=2"], UNL % 2, time=2400),
                              TWO])


def loc(entry, defs, bounds, covers=["end"], **kw):
    return Run("location", entry, DBG, defs, covers=covers, bounds=bounds, **kw)


def inl(n, **kw):
    return loc("h_inline", ["-DNODES=%d" % n], "every tree of %d DIEs (inlined subroutine, lexical block, subprogram, other) in a function, each covering the address or not, with any names; dwarf_getscopes failing or not" % n, ["end", "inlined", "physical"], **kw)


def line(n, **kw):
    return loc("h_line", ["-DPL=%d" % n], "line number and path known or not, 5 line numbers and 0 with any continuation, paths of at most %d arbitrary bytes, every location format" % n, ["end", "known", "not known"], **kw)


def copies(n, **kw):
    return loc("h_copies", ["-DOPS=%d" % n], "every history of %d operations (construct, copy, assign, look up, clear, lock the ownership) on 3 locations, 6 kinds of addresses" % n, **kw)


DELAYED = loc("h_delayed", ["-DDELAYED"], "a location that was looked up while libcwd was being initialized: 4 kinds of addresses, copied, assigned over any location, cleared, looked up again", ["end", "cleared"])
PROPS["P03"] = dict(quick=[inl(4), line(3), copies(3), DELAYED], thorough=[inl(5, time=1500), line(6), copies(4, time=1800), DELAYED])

SCOPES = "every program of at most %d operations (Indent of -1..3, three kinds of Mark with any 1 or 3 bytes, Mark::end (also inside a later Indent), DoutEntering, inc_indent/dec_indent, end of scope), nested in any way, initial marker of any byte or the default"
PROPS["I02"] = dict(quick=[Run("scopes", "h_scopes", DBG, ["-DOPS=4"], covers=["end", "indent", "mark", "entering", "end_inside"], bounds=SCOPES % 4)],
                    thorough=[Run("scopes", "h_scopes", DBG, ["-DOPS=5"], covers=["end", "indent", "mark", "entering", "end_inside"], bounds=SCOPES % 5, time=2400)])


def rep(entry, defs, bounds, covers=("end",), **kw):
    return Run("replace", entry, DBG, defs, covers=list(covers), bounds=bounds + " of lock operations and atomic accesses", atomics=True, **kw)


REP = "%d replacement(s) (stream, lock or both) while %d thread(s) run any program of %d statement(s) each out of {Dout, Dout with flush, continued/finish}, every schedule"


def repl(ops, writers, stmts, unlocks=0, **kw):
    return rep("h_replace", ["-DOPS=%d" % ops, "-DWRITERS=%d" % writers, "-DSTMTS=%d" % stmts] + (["-DUNLOCKS"] if unlocks else []), REP % (ops, writers, stmts), ["end", "both"], **kw)


SHARED = [rep("h_shared", ["-DOPS=1"], "a thread that writes 2 statements and a thread that calls get_ostream and has_mutex with and without holding the lock, every schedule", ["end", "read"]),
          rep("h_held", ["-DOPS=1", "-DWRITERS=2", "-DSTMTS=1"], "a thread that uses Dout and one that does so while it holds the (recursive) lock, every schedule")]
PROPS["T01"] = dict(quick=[repl(2, 1, 2, 1), repl(3, 1, 2, 1), repl(2, 2, 1)] + SHARED, thorough=[repl(2, 2, 1, 1, time=900), repl(3, 2, 1, time=1500), repl(2, 2, 2, time=2400), repl(4, 1, 2, 1, time=900)] + SHARED)
INI = DBG + ["demangle", "init_functions", "utils/rcfile", "utils/match"]


def ini(entry, defs, bounds, covers, **kw):
    return Run("init", entry, INI, defs, covers=covers, bounds=bounds, **kw)


RCS = "; the rcfile turns on any subset of %d channels"
INITS = [ini("h_init", [], "init() after any history of one on() or off() of 3 channels, every default thread state" + RCS % 4, ["end", "output"]),
         ini("h_late", [], "a library with a channel of any label is loaded after init(), a thread that starts afterwards, every thread state and a thread name of 0, 2 or 16 characters", ["end", "on", "off"])]


def inith(n, modes=4, **kw):
    return ini("h_init_threads", ["-DRCB=%d" % n] + (["-DMODES=%d" % modes] if modes < 4 else []), "2 threads that call init_thread at the same time, with every combination of default state, given state and name of 0, 2 or 16 characters, every schedule with context switches at lock operations%s" % (" and atomic accesses" if kw.get("atomics") else "") + RCS % (n + 1), ["end", "on", "off", "id", "told"], **kw)


PROPS["I01"] = dict(quick=INITS + [inith(1), inith(0, 1, atomics=True)], thorough=INITS + [inith(3, time=1500), inith(1, atomics=True, time=1500)])
TI = ["type_info", "demangle"]
PROPS["Y01"] = dict(quick=[Run("types", "h_exact", TI, [], covers=["returned"], bounds="every type of 13 forms (builtin, class, nested and template names with substitutions, pointers, member pointers, functions), with any reference, cv-qualifier and array dimension around it, identifiers of 2 arbitrary characters"),
                           Run("types", "h_type_threads", TI, [], covers=["end"], bounds="two threads that ask for the same type info for the first time, every schedule of lock operations and atomic accesses", atomics=True)])


def refs(ops, n=2, kinds=8, nodebug=False, **kw):
    return Run("refcount", "h_refcount", [], ["-DOPS=%d" % ops, "-DNT=%d" % n, "-DKINDS=%d" % kinds] + (["-DNODEBUG=1"] if nodebug else []), covers=["end"] + (["deferred"] if kinds > 4 else []), atomics=True,
               bounds="%d threads that each hold a reference and run any program of %d operation(s) out of the first %d of {reset, copy, inhibit/allow, inhibit/reset/allow, the same with deferred deletion, inhibit twice/reset/allow 2, add_ref/reset/release, inhibit twice/reset/allow 2 deferred}, while or after main gives up its own%s, every schedule of atomic accesses" % (n, ops, kinds, ", without debug code" if nodebug else ""), **kw)


def refseq(ops, slots, nodebug=False, **kw):
    return Run("refcount", "h_refcount_seq", [], ["-DOPS=%d" % ops, "-DSLOTS=%d" % slots] + (["-DNODEBUG=1"] if nodebug else []), covers=["end", "deleted"],
               bounds="every history of %d operations (new, new copy, copy, reset, inhibit, allow one or all, deferred or not, assignment and swap of objects, add_ref/release, swap and move of pointers) on %d pointers%s" % (ops, slots, ", without debug code" if nodebug else ""), **kw)


PROPS["C01"] = dict(quick=[refs(2), refs(1, nodebug=True), refs(1, 3, 4), refseq(4, 2), refseq(4, 2, True)],
                    thorough=[refs(3, time=1500), refs(2, nodebug=True, time=900), refs(1, 3, time=1500), refseq(5, 3, time=900), refseq(5, 2, True)])


def att(defs, covers, bounds, **kw):
    return Run("attach", "h_attach", RCF + ["utils/attach_gdb"], defs, covers=covers, bounds=bounds, hflags=["-fno-access-control"], max_instr=3000000, **kw)


ATT = att([], ["attached", "child", "terminated", "fork failed"], "every outcome of fork; system returning any status; the debugger attaching after 1 to 60 intervals or never; waitpid telling that it runs, that it ended with any status, that there is no child, or being interrupted, at the first to third call")


def att_settings(n, **kw):
    return att(["-DSETTINGS", "-DNSYM=%d" % n], ["attached", "child", "empty", "too long"], "every value of gdb of at most 1 and of xterm of at most %d arbitrary bytes; values of 100 to 300 and 0 to 511 characters around the sizes of the buffers" % n, **kw)


PROPS["G01"] = dict(quick=[ATT, att_settings(3)], thorough=[ATT, att_settings(5, time=1500)])


def early(ops, order, what, obj, **kw):
    return Run("early", "h_early", order, ["-DOPS=%d" % ops] + (["-DOBJECT"] if obj else []), covers=["end", "early", "late", "line"] + (["object"] if obj else []),
               bounds="%s; initialize() in a constructor that runs first, or not, then any %d operations of {on, off, channel on, channel off, set_ostream without and with lock, margin, marker, color_on, always_flush_on, inc_indent}; a channel%s constructed before those of libcwd" % (what, ops, " and a debug object" if obj else ""), **kw)


ORDERS = [(DBG, "debug.cxx is initialized first"), (DBG[::-1], "debug.cxx is initialized last"), (["location", "debug", "environ", "threading", "strerrno", "dwarf"], "location.cxx is initialized first")]
PROPS["S01"] = dict(quick=[early(3, o, w, b) for o, w in ORDERS[:2] for b in (False, True)], thorough=[early(5, o, w, b, time=600) for o, w in ORDERS for b in (False, True)])

TEX = "libcw_do and a second debug object, each thread %s of on, margin, marker, push_margin, push_marker, indent, color and a push and pop, with strings of at most %d arbitrary bytes"
PROPS["E01"] = dict(quick=[
    Run("thread_exit", "h_exit", DBG, ["-DSTEPS=1", "-DOBJS=2", "-DTLS=1", "-DSEQ=2"], covers=["end", "output from a destructor of a thread"], atomics=True, bounds="two threads after each other, " + TEX % ("one", 2)),
    Run("thread_exit", "h_exit", DBG, ["-DSTEPS=2", "-DOBJS=2", "-DTLS=1"], covers=["end", "output from a destructor of a thread"], atomics=True, bounds="one thread, with or without output from the destructor of a thread_local object, " + TEX % ("two", 2)),
    Run("thread_exit", "h_par", DBG, ["-DSTEPS=1", "-DOBJS=2", "-DTLS=0", "-DSLEN=1"], covers=["end"], atomics=True, bounds="two threads at the same time, every schedule of atomics, mutexes and thread ends, " + TEX % ("one", 1)),
    Run("thread_exit", "h_early", DBG, ["-DSTEPS=1", "-DOBJS=1", "-DTLS=0", "-DSLEN=1"], covers=["used again", "not used again"], atomics=True, bounds="a thread_local object that is constructed before the first use of libcwd, its destructor uses libcwd or not")],
    thorough=[
    Run("thread_exit", "h_exit", DBG, ["-DSTEPS=1", "-DOBJS=2", "-DTLS=1", "-DSEQ=2", "-DSLEN=4"], covers=["end", "output from a destructor of a thread"], atomics=True, time=600, bounds="two threads after each other, " + TEX % ("one", 4)),
    Run("thread_exit", "h_exit", DBG, ["-DSTEPS=3", "-DOBJS=2", "-DTLS=1", "-DSLEN=1"], covers=["end", "output from a destructor of a thread"], atomics=True, time=1200, bounds="one thread, with or without output from the destructor of a thread_local object, " + TEX % ("three", 1)),
    Run("thread_exit", "h_par", DBG, ["-DSTEPS=2", "-DOBJS=2", "-DTLS=1", "-DSLEN=1"], covers=["end"], atomics=True, time=1800, bounds="two threads at the same time, every schedule of atomics, mutexes and thread ends, " + TEX % ("two", 1)),
    Run("thread_exit", "h_early", DBG, ["-DSTEPS=2", "-DOBJS=2", "-DTLS=0", "-DSLEN=1"], covers=["used again", "not used again"], atomics=True, time=600, bounds="a thread_local object that is constructed before the first use of libcwd, its destructor uses libcwd or not")])


def leaks(r):
    r.defs = list(r.defs) + ["-DLEAKS"]
    r.bounds += "; all heap memory is accounted for"
    return r


def longm(n, **kw):
    return Run("long", "h_long", DBG, ["-DOPS=%d" % n, "-DCAPSIZE=%d" % (10000 if n < 3 else 16000)], covers=["end"],
               bounds="every history of %d operations (Dout with the message once or twice, nonewline and the rest, continued and finish), margin empty or of 600 characters, 20 lengths from 0 to 1100 around the sizes of the buffers, arbitrary first and last bytes" % n, **kw)


PROPS["M01"] = dict(quick=[leaks(r) for r in [longm(2), nested(4, 3), Run("scopes", "h_scopes", DBG, ["-DOPS=3"], covers=["end", "indent", "mark", "entering", "end_inside"], bounds=SCOPES % 3), inl(3), line(2),
                                              dsafe("h_type", 5, alphabet="NKSTILXEPRFMAvi1C_0G"), dsafe("h_symbol", 5, "_Z", alphabet="NKSTILXEZPFMAvi1fC_0"), dsafe("h_symbol", 5, "_Z1fI", "EEvT_", alphabet="T_SIEXLZi1A")]],
                    thorough=[leaks(r) for r in [longm(3, time=1200), nested(5, 4, time=900), nested(4, 3, True), Run("scopes", "h_scopes", DBG, ["-DOPS=4"], covers=["end", "indent", "mark", "entering", "end_inside"], bounds=SCOPES % 4, time=900), inl(4, time=600), line(4),
                                                 dsafe("h_type", 6, alphabet="NKSTILXEPRFMAvi1C_0G", time=600), dsafe("h_symbol", 6, "_Z", alphabet="NKSTILXEZPFMAvi1fC_0", time=600), dsafe("h_symbol", 7, "_Z1fI", "EEvT_", alphabet="T_SIEXLZi1A", time=600)]])


def envr(n, **kw):
    return Run("environment", "h_environment", DBG, ["-DOPS=%d" % n], covers=["end", "warned", "forced", "shown, forced", "shown, on", "not shown", "fatal"],
               bounds="LIBCWD_NO_STARTUP_MSGS and LIBCWD_PRINT_LOADING not set, empty or set; any soft and six hard limits of the core size; getrlimit or setrlimit failing; then every history of %d operations (libcw_do on or off, twice off, dc::elfutils and dc::notice on or off, dlopen or dlclose of a library)" % n, **kw)


PROPS["V01"] = dict(quick=[envr(3)], thorough=[envr(6, time=1500)])


def nod(n, l, **kw):
    return Run("nodebug", "h_nodebug", [], ["-DSTMTS=%d" % n, "-DSLEN=%d" % l], covers=["end", "fatal"], bounds="every program of %d of 9 statements with debug macros, with or without a condition; strings of at most %d arbitrary bytes in DoutFatal" % (n, l), **kw)


PROPS["N01"] = dict(quick=[nod(3, 3)], thorough=[nod(4, 5, time=900)])
