// Reference counted objects: destroyed exactly once, by whoever gives up the last reference, and not before everything that was
// done with the object by the owners of the other references.
#include "h.h"
#include "utils/AIRefCount.h"
#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef KINDS
#define KINDS 8
#endif

static int created, destroyed;
struct Obj : AIRefCount
{
  int id;
  int data[NT + 1] = { };
  Obj() : id(created++) { }
  Obj(Obj const& o) : AIRefCount(o), id(created++) { }
  Obj& operator=(Obj const& o) { AIRefCount::operator=(o); return *this; }
  void swap(Obj& o) { AIRefCount::swap(o); }
  ~Obj() override;
};
using Ptr = boost::intrusive_ptr<Obj>;
static int done[NT + 1];                // What each thread did with the object in total.
static bool gone[8];
static bool threaded;
Obj::~Obj()
{
  sx_assert(!gone[id], "an object is destroyed twice");
  gone[id] = true;
  ++destroyed;
  if (threaded)
    for (int t = 0; t <= NT; ++t) sx_assert(data[t] == done[t], "an object is destroyed while it is still used");
}

static Ptr start[NT + 1];
static int prog[NT + 1][OPS];

// Gives up the last reference of this thread.
static void run(int t, int ops)
{
  Ptr p;
  p.swap(start[t]);
  for (int i = 0; p; ++i)
  {
    Obj* o = p.get();
    switch (i < ops ? prog[t][i] : 0)
    {
      case 0: ++o->data[t]; p.reset(); break;
      case 1: { Ptr q(p); ++q->data[t]; break; }
      case 2: o->inhibit_deletion(); ++o->data[t]; o->allow_deletion(); break;
      case 3: o->inhibit_deletion(); p.reset(); ++o->data[t]; o->allow_deletion(); break;
      case 4:
        o->inhibit_deletion(); p.reset(); ++o->data[t];
        if (o->allow_deletion(true) == 1) { sx_cover("deferred"); delete o; }
        break;
      case 5: o->inhibit_deletion(); o->inhibit_deletion(); p.reset(); ++o->data[t]; o->allow_deletion(false, 2); break;
      case 6: intrusive_ptr_add_ref(o); p.reset(); ++o->data[t]; intrusive_ptr_release(o); break;
      case 7:
        o->inhibit_deletion(); o->inhibit_deletion(); ++o->data[t]; p.reset();
        if (o->allow_deletion(true, 2) == 2) { sx_cover("deferred"); delete o; }
        break;
    }
  }
}

static void* thread(void* p) { run((int)(size_t)p, OPS); return nullptr; }

extern "C" void h_refcount()
{
  threaded = true;
  bool first = sx_choice(2, "first");   // Main gives up its reference before or while the threads run.
  for (int t = 0; t < NT; ++t)
  {
    bool end = false;
    for (int i = 0; i < OPS; ++i)
    {
      prog[t][i] = end ? 0 : sx_choice(KINDS, "op");
      if (!end) ++done[t];
      if (prog[t][i] != 1 && prog[t][i] != 2) end = true;
    }
    if (!end) ++done[t];
  }
  done[NT] = 1;
  start[NT] = new Obj;
  for (int t = 0; t < NT; ++t) start[t] = start[NT];
  if (first) run(NT, 0);
  int id[NT];
  for (int t = 0; t < NT; ++t) id[t] = sx_thread_create(thread, (void*)(size_t)t);
  if (!first) run(NT, 0);
  for (int t = 0; t < NT; ++t) sx_thread_join(id[t]);
  sx_assert(created == 1 && destroyed == 1, "an object is never destroyed");
  sx_cover("end");
  sx_done();
}

// One thread: the exact count after every operation.
#ifndef SLOTS
#define SLOTS 2
#endif
extern "C" void h_refcount_seq()
{
  Ptr slot[SLOTS];
  Obj* obj[SLOTS] = { };                // What a slot points to.
  int count[8] = { }, inhibited[8] = { };
  Obj* all[8] = { };
  bool dead[8] = { };
  auto check = [&]
  {
    for (int i = 0; i < created; ++i)
    {
      if (all[i] && !dead[i] && count[i] + inhibited[i] == 0) dead[i] = true;
      sx_assert(gone[i] == dead[i], dead[i] ? "an object is not destroyed with its last reference" : "an object is destroyed too soon");
      if (!dead[i])
      {
        sx_assert(all[i]->read_count_racy() == count[i] + inhibited[i], "the reference count is wrong");
#if CW_DEBUG
        sx_assert(!all[i]->is_destructed(), "is_destructed of an existing object");
#endif
      }
    }
    for (int i = 0; i < SLOTS; ++i) sx_assert(slot[i].get() == obj[i], "a pointer changed");
  };
  for (int op = 0; op < OPS; ++op)
  {
    int s = sx_choice(SLOTS, "slot");
    Obj* o = obj[s];
    int i = o ? o->id : 0;
    switch (sx_choice(10, "op"))
    {
      case 0:                           // A new object, possibly a copy.
      {
        Obj* q = o && sx_choice(2, "copy") ? new Obj(*o) : new Obj;
        all[q->id] = q;
        sx_assert(q->read_count_racy() == 0, "a new object has references");
        if (o) --count[i];
        ++count[q->id];
        obj[s] = q;
        slot[s] = q;
        break;
      }
      case 1:
      {
        int d = sx_choice(SLOTS, "from");
        if (obj[d]) ++count[obj[d]->id];
        if (o) --count[i];
        obj[s] = obj[d];
        slot[s] = slot[d];
        break;
      }
      case 2: if (o) --count[i]; obj[s] = nullptr; slot[s].reset(); break;
      case 3:
      {
        sx_assume(o && inhibited[i] < 2);
        int r = o->inhibit_deletion();
        sx_assert(r == count[i] + inhibited[i], "inhibit_deletion returns something else than the previous count");
        ++inhibited[i];
        break;
      }
      case 4:                           // Any object whose deletion is inhibited; all of it, or one.
      {
        int n = 0;
        i = sx_choice(SLOTS, "which");
        sx_assume(i < created && all[i] && inhibited[i]);
        o = all[i];
        n = sx_choice(2, "all") ? inhibited[i] : 1;
        bool defer = sx_choice(2, "defer");
        int prev = count[i] + inhibited[i];
        inhibited[i] -= n;
        int r = defer || n != 1 ? o->allow_deletion(defer, n) : o->allow_deletion();
        sx_assert(r == prev, "allow_deletion returns something else than the previous count");
        if (prev == n)
        {
          sx_cover("deleted");
          sx_assert(gone[i] == !defer, "allow_deletion did or did not delete the object");
          if (defer)
          {
#if CW_DEBUG
            if (sx_choice(2, "mark")) { o->mark_deleted(); sx_assert(o->is_destructed(), "is_destructed is wrong after mark_deleted"); }
#endif
            delete o;
          }
        }
        break;
      }
      case 5: sx_assume(o != nullptr); { int d = sx_choice(SLOTS, "from"); sx_assume(obj[d] != nullptr); *o = *obj[d]; } break;
      case 6: sx_assume(o != nullptr); { int d = sx_choice(SLOTS, "from"); sx_assume(obj[d] != nullptr); o->swap(*obj[d]); } break;
      case 7: sx_assume(o != nullptr); intrusive_ptr_add_ref(o); ++count[i]; slot[s].detach(); intrusive_ptr_release(o); --count[i]; slot[s] = Ptr(o, false); break;
      case 8: { int d = sx_choice(SLOTS, "from"); slot[s].swap(slot[d]); Obj* t = obj[s]; obj[s] = obj[d]; obj[d] = t; break; }
      case 9: { int d = sx_choice(SLOTS, "from"); sx_assume(d != s); if (o) --count[i]; obj[s] = obj[d]; obj[d] = nullptr; slot[s] = static_cast<Ptr&&>(slot[d]); break; }
    }
    check();
  }
  for (int s = 0; s < SLOTS; ++s)
  {
    if (obj[s]) --count[obj[s]->id];
    obj[s] = nullptr;
    slot[s].reset();
    check();
  }
  for (int i = 0; i < created; ++i) if (!dead[i]) { int n = inhibited[i]; inhibited[i] = 0; all[i]->allow_deletion(false, n); }
  check();
  sx_assert(created == destroyed, "an object is never destroyed");
  sx_cover("end");
  sx_done();
}
