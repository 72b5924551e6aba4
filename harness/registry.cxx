// The channel registry: after creating any KK channels, ForAllDebugChannels visits every visible channel once, in label
// order, labels are padded to a common width, indices are unique, only WARNING is on, and find_channel returns the
// lexicographically largest case-insensitive prefix match.
#include "dbg.h"
#ifndef KK
#define KK 2
#endif
#ifndef WORDS
#define WORDS 6         // Number of fixed words to choose from
#endif
#ifndef SYM
#define SYM 2           // Maximal length of an arbitrary word
#endif
#ifndef PROBE
#define PROBE 3
#endif
// Channels must be global objects: they start as zeroed memory.
alignas(Channel) static unsigned char storage[KK][sizeof(Channel)];
static Channel* made[KK];
static char made_label[KK][20];
static bool visible[KK];
static char const* const words[] = {"", "W", "WARNING", "WARNINGS", "TENLETTERS", "SIXTEENLETTERSXX"};

static bool has(Channel const* c, char const* l, int w) // Is l the label of c, padded with spaces?
{
  int n = strlen(l);
  char const* s = c->get_label();
  unsigned char d = 0;
  for (int i = 0; i < w; ++i) d |= s[i] ^ (i < n ? l[i] : ' ');
  return d == 0 && s[w] == 0;
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

extern "C" void h_registry()
{
  unsigned width = 8;           // COREDUMP
  Channel* def[16];
  int ndef = 0;
  ForAllDebugChannels(if (ndef < 16) def[ndef++] = &debugChannel;);
  for (int i = 0; i < KK; ++i)
  {
    int w = sx_choice(WORDS + (SYM > 0), "word");
    if (w < WORDS) strcpy(made_label[i], words[w]);
    else
    {
      // A word of one or two arbitrary printing characters.
      int n = 1 + sx_choice(SYM, "len");
      sx_symbolic(made_label[i], n, "label");
      for (int j = 0; j < n; ++j) sx_assume(made_label[i][j] > ' ' && made_label[i][j] < 127);
      made_label[i][n] = 0;
    }
    visible[i] = sx_choice(2, "visible");
    made[i] = new (storage[i]) Channel(made_label[i], visible[i]);
    if (strlen(made_label[i]) > width) width = strlen(made_label[i]);
  }
  // Widths.
  sx_assert(dc::core.get_label()[width] == 0 && strlen(dc::core.get_label()) == width && memcmp(dc::core.get_label(), "COREDUMP ", width == 8 ? 8 : 9) == 0, "label of dc::core");
  sx_assert(dc::fatal.get_label()[width] == 0 && strlen(dc::fatal.get_label()) == width && memcmp(dc::fatal.get_label(), "FATAL   ", 8) == 0, "label of dc::fatal");
  sx_assert(has(&dc::notice, "NOTICE", width) && has(&dc::warning, "WARNING", width) && has(&dc::debug, "DEBUG", width) && has(&dc::system, "SYSTEM", width), "a label is not padded to the common width");
  for (int i = 0; i < KK; ++i)
  {
    sx_assert(has(made[i], made_label[i], width), "the label of a new channel is not its padded name");
    sx_assert(made[i]->index() > 0, "index zero");
    for (int j = 0; j < i; ++j) sx_assert(made[i]->index() != made[j]->index(), "two channels share an index");
    for (int j = 0; j < ndef; ++j) sx_assert(made[i]->index() != def[j]->index(), "two channels share an index");
    sx_assert(made[i]->is_on() == (strcmp(made_label[i], "WARNING") == 0), "only WARNING is on by default");
  }
  sx_assert(dc::warning.is_on() && !dc::notice.is_on(), "the state of another channel changed");
  // The list.
  Channel* list[16 + KK];
  int n = 0;
  ForAllDebugChannels(if (n < 16 + KK) list[n] = &debugChannel; ++n;);
  int nv = ndef;
  for (int i = 0; i < KK; ++i) nv += visible[i];
  sx_assert(n == nv, "ForAllDebugChannels does not visit every visible channel exactly once");
  for (int i = 0; i + 1 < n; ++i) sx_assert(strcmp(list[i]->get_label(), list[i + 1]->get_label()) <= 0, "ForAllDebugChannels is not in label order");
  for (int j = 0; j < KK + ndef; ++j)
  {
    int k = 0;
    for (int i = 0; i < n; ++i) k += list[i] == (j < KK ? made[j] : def[j - KK]);
    sx_assert(k == (j < KK ? visible[j] : 1), "ForAllDebugChannels visits a channel twice, or a hidden one");
  }
  // Look up.
  char probe[PROBE + 1];
  int pn = sx_choice(PROBE + 1, "probe");
  sx_symbolic(probe, pn, "probe");
  for (int i = 0; i < pn; ++i) sx_assume(probe[i] > ' ' && probe[i] < 127);
  probe[pn] = 0;
  Channel* f = find_channel(probe);
  Channel* want = nullptr;
  for (int i = 0; i < n; ++i)
  {
    bool m = true;
    for (int j = 0; j < pn && m; ++j) m = lower(probe[j]) == lower(list[i]->get_label()[j]);
    if (m) want = list[i];
  }
  sx_assert(f == want || (f && want && strcmp(f->get_label(), want->get_label()) == 0), "find_channel does not return the largest label that starts with the given text");
  if (f) sx_cover("found"); else sx_cover("not found");
}

// Fatal channels have padded labels too, and make those of other channels longer; they are not listed.
extern "C" void h_wide()
{
  alignas(FatalChannel) static unsigned char fatal_storage[KK][sizeof(FatalChannel)];
  FatalChannel* fatals[KK] = {};
  unsigned width = 8;
  int nv = 0;
  ForAllDebugChannels(++nv;);
  for (int i = 0; i < KK; ++i)
  {
    strcpy(made_label[i], words[1 + sx_choice(WORDS - 1, "word")]);
    int t = sx_choice(4, "type");
    if (t < 2) made[i] = new (storage[i]) Channel(made_label[i], t);
    else fatals[i] = new (fatal_storage[i]) FatalChannel(made_label[i], t == 2 ? fatal_maskbit : coredump_maskbit);
    if (t == 1) ++nv;
    if (strlen(made_label[i]) > width) width = strlen(made_label[i]);
    if (fatals[i]) sx_assert(fatals[i]->get_maskbit() == (t == 2 ? fatal_maskbit : coredump_maskbit), "the control bit of a fatal channel");
  }
  auto padded = [&](char const* s, char const* l) {
    unsigned n = strlen(l);
    bool ok = strlen(s) == width && memcmp(s, l, n) == 0;
    for (unsigned i = n; i < width && ok; ++i) ok = s[i] == ' ';
    return ok;
  };
  for (int i = 0; i < KK; ++i) sx_assert(padded(fatals[i] ? fatals[i]->get_label() : made[i]->get_label(), made_label[i]), "the label of a new channel is not its padded name");
  sx_assert(padded(dc::core.get_label(), "COREDUMP") && padded(dc::fatal.get_label(), "FATAL") && padded(dc::notice.get_label(), "NOTICE") && padded(dc::debug.get_label(), "DEBUG"), "a label is not padded to the common width");
  ForAllDebugChannels(--nv;);
  sx_assert(nv == 0, "ForAllDebugChannels does not visit every visible channel exactly once");
  sx_cover("end");
}

// list_channels_on shows every visible channel once, in label order, with its state in the calling thread; nothing when the object is off.
extern "C" void h_list()
{
  Cap cap;
  static DebugObject other;
  int which = sx_choice(2, "object");
  DebugObject& obj = which ? other : libcw_do;
  obj.set_ostream(&cap.os);
  unsigned width = 8;
  for (int i = 0; i < KK; ++i)
  {
    int w = 2 + sx_choice(WORDS - 2, "word");
    strcpy(made_label[i], words[w]);
    visible[i] = sx_choice(2, "visible");
    made[i] = new (storage[i]) Channel(made_label[i], visible[i]);
    if (strlen(made_label[i]) > width) width = strlen(made_label[i]);
    int s = sx_choice(3, "state");
    if (s == 1 && !made[i]->is_on()) made[i]->on();
    if (s == 2) made[i]->off();
  }
  int s = sx_choice(3, "notice");
  if (s == 1) dc::notice.on(); else if (s == 2) { dc::notice.off(); dc::warning.off(); }
  int on = sx_choice(3, "on");
  if (on) obj.on();
  if (on == 2) obj.off();
  char margin[2];
  sx_symbolic(margin, 2, "margin");
  int ml = sx_choice(3, "margin_len");
  obj.margin().assign(margin, ml);
  obj.inc_indent(3);
  Text want;
  if (on == 1)
  {
    ForAllDebugChannels(
      want.put(margin, ml);
      want.put(debugChannel.get_label());
      want.put(debugChannel.is_on() ? ": Enabled\n" : ": Disabled\n");
    );
    sx_cover("listed");
  }
  list_channels_on(obj);
  sx_observe(cap.data, cap.n, "list");
  sx_assert(same(cap, want), "list_channels_on does not show the channels and their states");
  if (on == 1)
    for (int i = 0; i < KK; ++i)
      if (visible[i])
      {
        bool found = false;
        int n = strlen(made_label[i]);
        for (int p = 0; p + (int)width + 2 <= cap.n && !found; ++p) found = memcmp(cap.data + p, made_label[i], n) == 0 && memcmp(cap.data + p + width, made[i]->is_on() ? ": E" : ": D", 3) == 0;
        sx_assert(found, "a visible channel is not listed");
      }
  sx_assert(libcw_do.get_indent() == (which ? 0 : 3), "the indentation changed");
}
