// insert_function_symbol_range: after any sequence of insertions every address belongs to the symbol that the
// documented rules choose for it.
#include "h.h"
#include "dwarf_symbol_ranges.h"
#ifndef KK
#define KK 3
#endif
#ifndef TT
#define TT uintptr_t
#endif
static uintptr_t address(char const* what) { return (sizeof(TT) == 1 ? 0x400000 : 0) + (uintptr_t)sx_any<TT>(what); }
using namespace libcwd::dwarf;
LocationLookupResult SymbolRange::lookup_location(uintptr_t, uintptr_t) const { __builtin_trap(); }

extern "C" void h_ranges()
{
  FunctionSymbolRanges m;
  uintptr_t s[KK], e[KK];
  unsigned char isdwarf[KK];
  int dummy[KK];
  char names[KK][2];
  uintptr_t a = address("addr");
  int owner = -1;               // Reference: who owns address a.
  // Does the i-th insertion win at least one address?  Checked through a symbolic witness address.
  for (int i = 0; i < KK; ++i)
  {
    s[i] = address("start");
    e[i] = address("end");
    isdwarf[i] = sx_choice(2, "dwarf");
    names[i][0] = 'a' + i; names[i][1] = 0;
    Dwarf_Die die;
    memset(&die, 0, sizeof die);
    die.addr = &dummy[i];
    bool r = insert_function_symbol_range(m, s[i], e[i], names[i], isdwarf[i] ? &die : nullptr);
    bool inside = (s[i] <= a) & (a < e[i]);
    if (inside)
    {
      bool wins = owner < 0;
      if (!wins)
      {
        if (isdwarf[i] != isdwarf[owner]) wins = isdwarf[i];
        else wins = e[i] - s[i] < e[owner] - s[owner];
      }
      if (wins) { owner = i; sx_assert(r, "an insertion that got an address returned false"); }
    }
    if (s[i] >= e[i]) sx_assert(!r, "an empty range was inserted");
    if (r)
    {
      bool found = false;
      for (auto& p : m) found |= p.second.name() == names[i];
      sx_assert(found, "insertion returned true but nothing was inserted");
    }
  }
  // Invariants.
  uintptr_t prev = 0;
  bool first = true;
  for (auto& p : m)
  {
    SymbolRange const& r = p.second;
    sx_assert(p.first == r.end_addr(), "the key is not the end of the range");
    sx_assert(r.start_addr() < r.end_addr(), "empty range stored");
    sx_assert(first | (prev <= r.start_addr()), "stored ranges overlap");
    prev = r.end_addr();
    first = false;
    int i = r.name()[0] - 'a';
    sx_assert((r.start_addr() >= s[i]) & (r.end_addr() <= e[i]) & (r.size() == e[i] - s[i]) & (r.is_elf_symbol() == !isdwarf[i]), "a fragment does not describe its symbol");
  }
  // Lookup.
  auto it = m.upper_bound(a);
  int got = -1;
  if (it != m.end() && it->second.start_addr() <= a) got = it->second.name()[0] - 'a';
  sx_assert(got == owner, "the address belongs to another symbol");
  int sz = m.size();
  sx_observe(&sz, sizeof sz, "ranges");
  sx_observe(&got, sizeof got, "owner");
  if (sz > KK) sx_cover("split");
  if (owner == 0 && KK > 1) sx_cover("first-kept");
  if (owner == KK - 1) sx_cover("last-won");
}
