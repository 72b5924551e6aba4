// Built-in models of external functions (part of symx.cpp).

static void ret(Exec& X, State& s, PInst& in, Val v)
{
  if (in.dst >= 0) s.top().r[in.dst] = std::move(v);
  if (in.normal >= 0) X.jump(s, in.normal);
  else ++s.top().ip;
}
static void ret(Exec& X, State& s, PInst& in) { ret(X, s, in, Val((uint64_t)0)); }

static uint32_t rd32(State& s, uint64_t a)
{
  MemObj* o = s.mem.get((uint32_t)(a >> 32));
  if (!o || a - objAddr(o->id) + 4 > o->size) return 0;
  uint32_t v; memcpy(&v, &o->d[a - objAddr(o->id)], 4);
  return v;
}
// A lock must be in memory that exists.
static void chkLock(Exec& X, State& s, uint64_t a, uint64_t n)
{
  MemObj* o = s.mem.get((uint32_t)(a >> 32));
  if (!o || a - objAddr(o->id) + n > o->size) X.fail(s, "memory", "use of a lock in memory that is freed");
}
static void wr32(State& s, uint64_t a, uint32_t v)
{
  MemObj* o = s.mem.wr((uint32_t)(a >> 32));
  uint64_t f = a - objAddr(o->id);
  memcpy(&o->d[f], &v, 4);
  if (!o->s.empty()) for (int i = 0; i < 4; ++i) o->s[f + i] = nullptr;
}

// A scheduling point before the current (call) instruction.  Returns true when the instruction must be re-executed.
static bool schedPoint(Exec& X, State& s, uint64_t pend = ~0ull, bool read = false)
{
  if (s.th.size() < 2) return false;
  Thread& T = s.T();
  if (!T.fresh) { T.fresh = true; return false; }
  T.fresh = false;
  T.pend = pend;
  T.pendRead = read;
  X.schedule(s, true, true);
  return true;
}

void Exec::registerBuiltins()
{
#define B(name) builtins[name] = [](Exec& X, State& s, PInst& in, std::vector<Val>& a, Val& r)
#define CONC(i, w) X.concretize(s, a[i], w, __func__)
  B("sx_symbolic")
  {
    uint64_t p = CONC(0, 64), n = CONC(1, 64);
    std::string name = X.cstr(s, a[2], "name");
    SymInput si; si.name = name;
    Ex so; uint64_t off;
    MemObj* o = X.resolve(s, Val(p), n, so, off, true, "sx_symbolic");
    uint32_t id = o->id;
    if (n == 1 || n == 2 || n == 4 || n == 8)
    {
      Ex v = X.freshVar(s, name, n * 8);
      for (unsigned i = 0; i < n; ++i) si.bytes.push_back(mkExtract(v, 8 * i, 8));
      X.writeObj(s, s.mem.get(id), off, Val(v), n);
    }
    else
      for (uint64_t i = 0; i < n; ++i)
      {
        Ex v = X.freshVar(s, name, 8);
        si.bytes.push_back(v);
        X.writeObj(s, s.mem.get(id), off + i, Val(v), 1);
      }
    s.inputs.push_back(si);
    ret(X, s, in);
  };
  B("sx_assume")
  {
    Val c = a[0];
    if (c.conc()) { if (!(c.c & 0xffffffff)) throw PathEnd{"assume", ""}; ret(X, s, in); return; }
    Ex e = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    Model m;
    if (X.check(s, e, m) != SatRes::Sat) throw PathEnd{"assume", ""};
    s.model = m;
    X.addCon(s, e);
    ret(X, s, in);
  };
  B("sx_assert")
  {
    ++X.nassert;
    Val c = a[0];
    if (c.conc())
    {
      if (!(c.c & 0xffffffff)) X.fail(s, "assert", X.cstr(s, a[1], "msg"));
      ret(X, s, in);
      return;
    }
    Ex e = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    Model m;
    if (X.check(s, mkNot(e), m, true) == SatRes::Sat)
    {
      std::string msg = X.cstr(s, a[1], "msg");
      X.reportErr(s, "assert", msg, m);
      Model m2;
      if (X.check(s, e, m2) != SatRes::Sat) throw PathEnd{"done", "assert-fail"};
      s.model = m2;
    }
    X.addCon(s, e);
    ret(X, s, in);
  };
  B("sx_fail") { X.fail(s, "assert", X.cstr(s, a[0], "msg")); };
  B("sx_cover") { std::string n = X.cstr(s, a[0], "cover"); ++X.covers[n]; for (char& c : n) if (c == ' ') c = '_'; s.obs.push_back({n, {}}); ret(X, s, in); };
  B("sx_observe")
  {
    uint64_t p = CONC(0, 64), n = CONC(1, 64);
    Obs o; o.name = X.cstr(s, a[2], "observe");
    for (char& c : o.name) if (c == ' ') c = '_';
    if (n)
    {
      Ex so; uint64_t off;
      uint32_t id = X.resolve(s, Val(p), n, so, off, false, "sx_observe")->id;
      for (uint64_t i = 0; i < n; ++i) o.bytes.push_back(X.byteAt(s, id, off + i));
    }
    s.obs.push_back(o);
    ret(X, s, in);
  };
  B("sx_done") { throw PathEnd{"done", "sx_done"}; };
  B("sx_note") { s.notes.push_back(X.cstr(s, a[0], "note")); ret(X, s, in); };
  B("sx_note_u64")
  {
    uint64_t v = a[1].conc() ? a[1].c : (uint64_t)evalExpr(a[1].e, s.model);
    s.notes.push_back(X.cstr(s, a[0], "note") + " = " + std::to_string(v) + (a[1].conc() ? "" : " (symbolic)"));
    ret(X, s, in);
  };
  B("sx_concretize") { uint64_t v = CONC(0, 64); ret(X, s, in, Val(v)); };
  B("sx_symbolic_run") { ret(X, s, in, Val((uint64_t)1)); };
  B("sx_is_symbolic") { ret(X, s, in, Val((uint64_t)!a[0].conc())); };
  B("sx_valid")   // is [p, p+n) inside a live object?
  {
    uint64_t p = CONC(0, 64), n = CONC(1, 64);
    MemObj* o = (p >> 56) == 1 ? nullptr : s.mem.get((uint32_t)(p >> 32));
    bool ok = o && p >= objAddr(o->id) && p - objAddr(o->id) + n <= o->size;
    ret(X, s, in, Val((uint64_t)ok));
  };

  B("sx_live_bytes")   // The total size of all heap objects.
  {
    uint64_t n = 0;
    for (auto& c : s.mem.t)
      if (c)
        for (unsigned i = 0; i < CH; ++i)
          if (MemObj* o = c->o[i].p) if (o->kind == OK_::Heap) n += o->size;
    ret(X, s, in, Val(n));
  };

  // ---- heap
  auto mal = [](uint8_t fam, const char* nm, bool zero) {
    return [fam, nm, zero](Exec& X, State& s, PInst& in, std::vector<Val>& a, Val&) {
      uint64_t n = X.concretize(s, a[0], 64, "malloc size");
      ret(X, s, in, Val(X.alloc(s, n, OK_::Heap, nm, fam, zero)));
    };
  };
  builtins["malloc"] = mal(1, "malloc", false);
  builtins["_Znwm"] = mal(2, "new", false);
  builtins["_Znam"] = mal(3, "new[]", false);
  builtins["_ZnwmSt11align_val_t"] = mal(2, "new", false);
  builtins["_ZnwmRKSt9nothrow_t"] = mal(2, "new", false);
  builtins["_ZnamRKSt9nothrow_t"] = mal(3, "new[]", false);
  B("calloc") { uint64_t n = CONC(0, 64) * CONC(1, 64); ret(X, s, in, Val(X.alloc(s, n, OK_::Heap, "calloc", 1, true))); };
  auto fre = [](uint8_t fam) {
    return [fam](Exec& X, State& s, PInst& in, std::vector<Val>& a, Val&) { X.dealloc(s, a[0], fam); ret(X, s, in); };
  };
  builtins["free"] = fre(1);
  builtins["_ZdlPv"] = fre(2);
  builtins["_ZdlPvm"] = fre(2);
  builtins["_ZdlPvSt11align_val_t"] = fre(2);
  builtins["_ZdlPvmSt11align_val_t"] = fre(2);
  builtins["_ZdaPv"] = fre(3);
  builtins["_ZdaPvm"] = fre(3);
  builtins["_ZdlPvRKSt9nothrow_t"] = fre(2);
  B("realloc")
  {
    uint64_t p = CONC(0, 64), n = CONC(1, 64);
    if (p == 0) { ret(X, s, in, Val(X.alloc(s, n, OK_::Heap, "malloc", 1, false))); return; }
    MemObj* o = s.mem.get((uint32_t)(p >> 32));
    if (!o || p != objAddr(o->id) || o->kind != OK_::Heap || o->fam != 1) X.fail(s, "memory", "realloc of an invalid pointer");
    uint64_t old = o->size;
    uint64_t q = X.alloc(s, n, OK_::Heap, "malloc", 1, false);
    X.memcopy(s, Val(q), Val(p), std::min(old, n));
    X.dealloc(s, Val(p), 1);
    ret(X, s, in, Val(q));
  };

  // ---- memory
  B("memcpy") { uint64_t n = CONC(2, 64); X.memcopy(s, a[0], a[1], n); ret(X, s, in, a[0]); };
  B("memmove") { uint64_t n = CONC(2, 64); X.memcopy(s, a[0], a[1], n); ret(X, s, in, a[0]); };
  B("memset") { uint64_t n = CONC(2, 64); X.memsetv(s, a[0], a[1], n); ret(X, s, in, a[0]); };
  auto mcmp = [](Exec& X, State& s, PInst& in, std::vector<Val>& a, Val&) {
    uint64_t p = X.concretize(s, a[0], 64, "memcmp"), q = X.concretize(s, a[1], 64, "memcmp"), n = X.concretize(s, a[2], 64, "memcmp");
    if (n == 0) { ret(X, s, in); return; }
    Ex so; uint64_t o1, o2;
    uint32_t i1 = X.resolve(s, Val(p), n, so, o1, false, "read (memcmp)")->id;
    uint32_t i2 = X.resolve(s, Val(q), n, so, o2, false, "read (memcmp)")->id;
    Ex e = mkConst(0, 32);
    for (int64_t i = (int64_t)n - 1; i >= 0; --i)
    {
      Ex x = X.byteAt(s, i1, o1 + i), y = X.byteAt(s, i2, o2 + i);
      e = mkIte(mkEq(x, y), e, mkIte(mkCmp(EK::Ult, x, y), mkConst((u128)-1, 32), mkConst(1, 32)));
    }
    ret(X, s, in, Val(e));
  };
  builtins["memcmp"] = mcmp;
  builtins["bcmp"] = mcmp;

  // ---- process end
  B("abort") { X.fail(s, "abort", "abort() called"); };
  B("_ZSt9terminatev") { X.fail(s, "exception", "std::terminate() called"); };
  B("__cxa_pure_virtual") { X.fail(s, "ub", "pure virtual call"); };
  auto ex = [](Exec& X, State& s, PInst& in, std::vector<Val>& a, Val&) { throw PathEnd{"done", "exit"}; };
  builtins["exit"] = ex;
  builtins["_exit"] = ex;
  builtins["_Exit"] = ex;
  B("__assert_fail") { X.fail(s, "assert", "assert() failed: " + X.cstr(s, a[0], "assert")); };
  auto nop = [](Exec& X, State& s, PInst& in, std::vector<Val>&, Val&) { ret(X, s, in); };
  for (const char* n : {"__cxa_atexit", "atexit", "printf", "puts", "fflush", "_ZSt21ios_base_library_initv", "_ZNSt8ios_base4InitC1Ev",
                        "_ZNSt8ios_base4InitD1Ev"})
    builtins[n] = nop;

  // ---- exceptions
  B("__cxa_allocate_exception") { uint64_t n = CONC(0, 64); ret(X, s, in, Val(X.alloc(s, n, OK_::Heap, "exception", 9, false))); };
  B("__cxa_free_exception") { uint64_t p = CONC(0, 64); s.mem.del((uint32_t)(p >> 32)); ret(X, s, in); };
  B("__cxa_throw")
  {
    Thread& T = s.T();
    T.exc = CONC(0, 64); T.exctype = CONC(1, 64);
    s.excTypes[T.exc] = T.exctype;
    X.unwind(s);
  };
  B("__cxa_begin_catch") { uint64_t p = CONC(0, 64); s.T().caught.push_back(p); ret(X, s, in, Val(p)); };
  B("__cxa_end_catch") { if (!s.T().caught.empty()) s.T().caught.pop_back(); ret(X, s, in); };
  B("__cxa_rethrow")
  {
    Thread& T = s.T();
    if (T.caught.empty()) X.fail(s, "exception", "rethrow without exception");
    T.exc = T.caught.back(); T.exctype = s.excTypes[T.exc];
    X.unwind(s);
  };
  B("__cxa_get_exception_ptr") { ret(X, s, in, a[0]); };

  // ---- threads
  B("__cxa_thread_atexit") { s.T().atexit.push_back({CONC(0, 64), CONC(1, 64)}); ret(X, s, in); };
  B("sx_thread_create")
  {
    uint64_t f = CONC(0, 64);
    auto it = X.fnByAddr.find(f);
    if (it == X.fnByAddr.end()) X.fail(s, "memory", "thread function");
    int me = s.cur, id = (int)s.th.size();
    ret(X, s, in, Val((uint64_t)id));
    s.th.emplace_back();
    s.cur = id;
    X.pushFrame(s, it->second, {a[1]}, nullptr);
    s.cur = me;
    // Clocks start at 1 so that 0 means never.
    if (id == 1) s.th[me].vc.c[me] = 1;
    s.th[id].vc = s.th[me].vc;
    s.th[id].vc.c[id] = 1;
    ++s.th[me].vc.c[me];
  };
  B("sx_thread_join")
  {
    uint64_t t = CONC(0, 32);
    if (t >= s.th.size()) X.fail(s, "assert", "join of an unknown thread");
    if (!s.th[t].done) { s.T().waitJoin = (int)t; s.T().pend = 0; s.T().pendRead = false; X.schedule(s, false, true); return; }
    s.T().waitJoin = -1;
    s.T().vc.join(s.th[t].vc);
    ret(X, s, in);
  };
  B("sx_atomic") { if (schedPoint(X, s, CONC(0, 64), !CONC(1, 32))) return; ret(X, s, in); };
  B("sx_yield") { if (schedPoint(X, s)) return; ret(X, s, in); };
  B("sx_self") { ret(X, s, in, Val((uint64_t)s.cur)); };
  B("pthread_self") { ret(X, s, in, Val((uint64_t)s.cur + 1)); };
  B("pthread_mutex_lock")
  {
    uint64_t m = CONC(0, 64);
    chkLock(X, s, m, 20);
    uint32_t l = rd32(s, m), own = rd32(s, m + 8), kind = rd32(s, m + 16);
    if (l && (int)own == s.cur + 1)
    {
      if (kind == 1) { wr32(s, m + 4, rd32(s, m + 4) + 1); ret(X, s, in); return; }
      X.fail(s, "deadlock", "mutex locked twice by the same thread");
    }
    s.T().waitMutex = m;
    if (schedPoint(X, s, m)) return;
    if (l) X.fail(s, "deadlock", "no runnable thread");
    s.T().waitMutex = 0;
    wr32(s, m, 1); wr32(s, m + 8, s.cur + 1);
    X.acquire(s, m);
    ret(X, s, in);
  };
  B("sx_rwlock")
  {
    uint64_t m = CONC(0, 64), kind = CONC(1, 32);
    chkLock(X, s, m, 8);
    uint32_t nr = rd32(s, m), w = rd32(s, m + 4);
    if (kind == 0 || kind == 2 || kind == 4)
    {
      s.T().waitMutex = m; s.T().waitRW = (int)kind;
      if (schedPoint(X, s, m)) return;
      if (!X.runnable(s, s.cur)) X.fail(s, "deadlock", "no runnable thread (read/write lock)");
      s.T().waitMutex = 0; s.T().waitRW = -1;
      if (kind == 0) wr32(s, m, nr + 1);
      else { wr32(s, m, 0); wr32(s, m + 4, s.cur + 1); }
      if (s.th.size() > 1) { X.acquire(s, m); if (kind) X.acquire(s, m + 4); }
    }
    else
    {
      if (kind == 1 ? !nr : (int)w != s.cur + 1) X.fail(s, "deadlock", "unlock of a read/write lock that is not owned");
      if (kind == 1) wr32(s, m, nr - 1);
      else { wr32(s, m + 4, 0); if (kind == 5) wr32(s, m, 1); }
      if (s.th.size() > 1) X.release(s, kind == 1 ? m + 4 : m);
    }
    ret(X, s, in);
  };
  B("pthread_mutex_trylock")
  {
    uint64_t m = CONC(0, 64);
    chkLock(X, s, m, 20);
    if (schedPoint(X, s)) return;
    uint32_t l = rd32(s, m), own = rd32(s, m + 8), kind = rd32(s, m + 16);
    if (l)
    {
      if (kind == 1 && (int)own == s.cur + 1) { wr32(s, m + 4, rd32(s, m + 4) + 1); ret(X, s, in); return; }
      ret(X, s, in, Val((uint64_t)16));
      return;
    }
    wr32(s, m, 1); wr32(s, m + 8, s.cur + 1);
    X.acquire(s, m);
    ret(X, s, in);
  };
  B("pthread_mutex_unlock")
  {
    uint64_t m = CONC(0, 64);
    chkLock(X, s, m, 20);
    uint32_t l = rd32(s, m), own = rd32(s, m + 8), cnt = rd32(s, m + 4);
    if (!l || (int)own != s.cur + 1) X.fail(s, "deadlock", "unlock of a mutex that is not owned");
    // Only a trylock can see the difference between a mutex that is about to be unlocked and one that is not.
    if (X.unlockPoints && !cnt && schedPoint(X, s, m)) return;
    if (cnt) wr32(s, m + 4, cnt - 1);
    else { wr32(s, m, 0); wr32(s, m + 8, 0); if (s.th.size() > 1) X.release(s, m); }
    ret(X, s, in);
  };

  // ---- formatted output with concrete arguments
  B("snprintf")
  {
    uint64_t dst = CONC(0, 64), n = CONC(1, 64);
    std::string f = X.cstr(s, a[2], "format");
    std::string out;
    size_t k = 3;
    for (size_t i = 0; i < f.size(); ++i)
    {
      if (f[i] != '%') { out += f[i]; continue; }
      if (f[i + 1] == '%') { out += '%'; ++i; continue; }
      std::string spec = "%";
      size_t j = i + 1;
      int longs = 0;
      while (j < f.size() && !isalpha((unsigned char)f[j]))
      {
        if (f[j] == '*') { spec += std::to_string((int)CONC(k, 32)); ++k; ++j; }
        else spec += f[j++];
      }
      while (j < f.size() && (f[j] == 'l' || f[j] == 'h' || f[j] == 'z' || f[j] == 't' || f[j] == 'j' || f[j] == 'L'))
      { if (f[j] == 'l' || f[j] == 'z' || f[j] == 't' || f[j] == 'j') longs = 1; ++j; }
      char c = f[j];
      char buf[4096];
      if (k >= a.size()) X.fail(s, "ub", "snprintf: missing argument");
      if (c == 's') { std::string str = X.cstr(s, a[k], "snprintf"); snprintf(buf, sizeof buf, (spec + "s").c_str(), str.c_str()); }
      else if (c == 'c') { snprintf(buf, sizeof buf, (spec + "c").c_str(), (int)CONC(k, 32)); }
      else if (c == 'p') { snprintf(buf, sizeof buf, (spec + "p").c_str(), (void*)CONC(k, 64)); }
      else if (strchr("eEfFgGaA", c)) { snprintf(buf, sizeof buf, (spec + c).c_str(), asD(CONC(k, 64))); }
      else
      {
        uint64_t v = CONC(k, longs ? 64 : 32);
        if (!longs && (c == 'd' || c == 'i')) v = (uint64_t)(int64_t)(int32_t)v;
        snprintf(buf, sizeof buf, (spec + "l" + c).c_str(), v);
      }
      ++k;
      out += buf;
      i = j;
    }
    if (n)
    {
      uint64_t m = std::min<uint64_t>(out.size(), n - 1);
      for (uint64_t i = 0; i <= m; ++i) X.store(s, Val(dst + i), Val((uint64_t)(i < m ? (uint8_t)out[i] : 0)), 8, nullptr);
    }
    ret(X, s, in, Val((uint64_t)out.size()));
  };
}
