// lockable_auto_ptr: every object is deleted exactly once, by its one owner; ownership moves on copy unless locked.
#include "h.h"
#include <libcwd/lockable_auto_ptr.h>
#include <new>
#ifndef OPS
#define OPS 3
#endif
#ifndef PP
#define PP 3
#endif
#ifndef ARR
#define ARR false
#endif
static int live[16], deleted[16];
static int nobj;
struct Base { int id; Base() : id(nobj++) { ++live[id]; } virtual ~Base() { --live[id]; ++deleted[id]; } };
struct Derived : Base { int more = 0; };
using Ptr = libcwd::lockable_auto_ptr<Base, ARR>;
using DPtr = libcwd::lockable_auto_ptr<Derived, ARR>;
static Base* make() { return ARR ? new Base[1] : new Base; }
static Derived* makeD() { return ARR ? new Derived[1] : new Derived; }

struct Ref { bool alive = false; int obj = -1; bool owner = false, locked = false; };
alignas(Ptr) static unsigned char store[PP][sizeof(Ptr)];
static Ptr& at(int i) { return *(Ptr*)store[i]; }
static bool expectDeleted[16];

extern "C" void h_auto_ptr()
{
  Ref ref[PP];
  for (int op = 0; op < OPS; ++op)
  {
    int k = sx_choice(ARR ? 9 : 10, "op");
    int i = sx_choice(PP, "target");
    Ref& r = ref[i];
    auto drop = [&](Ref& x) { if (x.owner) { expectDeleted[x.obj] = true; x.owner = false; } };
    if (k == 0)                 // construct from a new object
    {
      sx_assume(!r.alive);
      int id = nobj;
      new (&at(i)) Ptr(make());
      r.alive = true; r.obj = id; r.owner = true; r.locked = false;
    }
    else if (k == 1)            // empty
    {
      sx_assume(!r.alive);
      new (&at(i)) Ptr;
      r = Ref(); r.alive = true;
    }
    else if (k == 2)            // copy construct
    {
      int j = sx_choice(PP, "source");
      sx_assume(!r.alive && ref[j].alive && i != j);
      Ref& q = ref[j];
      bool qalive = q.obj < 0 || !expectDeleted[q.obj];
      new (&at(i)) Ptr(at(j));
      r.alive = true; r.obj = q.obj; r.locked = false; r.owner = q.owner && !q.locked;
      if (!q.locked) q.owner = false;
    }
    else if (k == 3)            // assign
    {
      int j = sx_choice(PP, "source");
      sx_assume(r.alive && ref[j].alive);
      Ref& q = ref[j];
      at(i) = at(j);
      if (i != j)
      {
        drop(r);
        r.obj = q.obj; r.owner = q.owner && !q.locked;
        if (!q.locked) q.owner = false;
      }
    }
    else if (k == 4)            // destroy
    {
      sx_assume(r.alive);
      at(i).~Ptr();
      drop(r);
      r.alive = false;
    }
    else if (k == 5) { sx_assume(r.alive); at(i).reset(); drop(r); r.obj = -1; }
    else if (k == 6) { sx_assume(r.alive && r.owner); at(i).lock(); r.locked = true; }
    else if (k == 7) { sx_assume(r.alive); at(i).unlock(); r.locked = false; }
    else if (k == 8)            // release: the caller becomes responsible
    {
      sx_assume(r.alive && r.owner);
      Base* p = at(i).release();
      r.owner = false;
      sx_assert(!deleted[r.obj], "release returned a deleted object");
      if (ARR) delete[] p; else delete p;
      expectDeleted[r.obj] = true;
    }
    else                        // convert from a derived type
    {
      int how = sx_choice(3, "how");
      if (how == 0) sx_assume(!r.alive); else sx_assume(r.alive);
      int id = nobj;
      {
        DPtr d(makeD());
        if (how == 2) d.lock();
        if (how == 0) new (&at(i)) Ptr(d); else at(i) = d;
        sx_assert(d.is_owner() == (how == 2), "ownership of the converted pointer");
      }
      if (how != 0) drop(r); else { r.locked = false; r.alive = true; }
      if (how == 2) expectDeleted[id] = true;
      r.obj = id; r.owner = how != 2;
    }
    for (int n = 0; n < nobj; ++n)
    {
      sx_assert(deleted[n] <= 1, "object deleted twice");
      sx_assert((deleted[n] == 1) == expectDeleted[n], expectDeleted[n] ? "object not deleted" : "object deleted while owned");
    }
    for (int n = 0; n < PP; ++n)
      if (ref[n].alive)
      {
        sx_assert(at(n).is_owner() == ref[n].owner, "wrong owner");
        if (ref[n].owner) sx_assert(at(n).strict_owner() == ref[n].locked, "wrong lock state");
        if (ref[n].obj < 0) sx_assert(at(n).get() == nullptr, "pointer is not null");
        else { sx_assert(at(n).get() != nullptr, "pointer is null"); if (!expectDeleted[ref[n].obj]) sx_assert(at(n)->id == ref[n].obj, "points to another object"); }
      }
  }
  for (int i = 0; i < PP; ++i) if (ref[i].alive) { at(i).~Ptr(); if (ref[i].owner) expectDeleted[ref[i].obj] = true; }
  for (int n = 0; n < nobj; ++n) sx_assert(deleted[n] == expectDeleted[n], "object leaked or deleted twice at the end");
  sx_observe(deleted, sizeof deleted, "deleted");
  sx_cover("end");
}
