// The runtime configuration file: how its lines are split, which channels are on after reading it, and where it is looked for.
// The file system and the environment are stand-ins: a file is an array of lines that std::getline returns.
#define NO_ENV_STUBS
#include "dbg.h"
#include <fstream>
#include <string>
#include <pwd.h>
#include <sys/stat.h>
#ifndef NSYM
#define NSYM 5
#endif
#ifndef LINES
#define LINES 3
#endif
#ifndef START
#define START 1
#endif

namespace libcwd::channels::dc { extern Channel rcfile; }

// ---- the environment
static char const* env_name;            // LIBCWD_RCFILE_NAME
static char const* env_override;        // LIBCWD_RCFILE_OVERRIDE_NAME
static char const* env_home;            // HOME
static char const* pw_home;             // Home directory according to the passwd file.
static struct passwd pwd_entry;
struct File { char const* name; int kind; int nlines; std::string* lines; };  // kind: 0 nothing, 1 regular, 2 unreadable, 3 directory.
static File files[8];
static int nfiles;
static int opened[4], nopened, current = -1, nextline;
static int find(char const* name) { for (int i = 0; i < nfiles; ++i) if (strcmp(files[i].name, name) == 0) return i; return -1; }

static std::string* flines[8];
static int fatal_expected = -1;         // -1: must not end.
static void ended(bool core);
extern "C" {
char* stub_getenv(char const* n)
{
  if (strcmp(n, "LIBCWD_RCFILE_NAME") == 0) return (char*)env_name;
  if (strcmp(n, "LIBCWD_RCFILE_OVERRIDE_NAME") == 0) return (char*)env_override;
  if (strcmp(n, "HOME") == 0) return (char*)env_home;
  return nullptr;
}
int stub_getrlimit(int, struct rlimit* r) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; }
int stub_setrlimit(int, struct rlimit const*) { return 0; }
bool stub__ZN6libcwd5dwarf21ensure_initializationERNS_9_private_18ThreadSpecificDataE(void*) { return true; }
void stub__ZN6libcwd8Location20M_pc_location_createEPKvRNS_9_private_18ThreadSpecificDataE(void*, void const*, void*) { }
int stub_stat(char const* n, struct stat* b)
{
  int f = find(n);
  if (f < 0 || files[f].kind == 0) { errno = ENOENT; return -1; }
  memset(b, 0, sizeof *b);
  // Anything of which the type is another than that of a regular file is skipped, whatever its size and permissions are.
  unsigned char perm = 0, size = 0, links = 0, type = 4;
  sx_symbolic(&perm, 1, "perm"); sx_symbolic(&size, 1, "size"); sx_symbolic(&links, 1, "links");
  if (files[f].kind == 3) { sx_symbolic(&type, 1, "type"); sx_assume(type < 16 && type != 8); }
  else type = 8;
  b->st_mode = (type << 12) | perm | (perm & 1 ? 0400 : 0200);
  b->st_size = size << 10 | (size >> 4);
  b->st_nlink = links;
  b->st_mtime = size << 8 | perm;
  return 0;
}
int stub_access(char const* n, int)
{
  int f = find(n);
  if (f < 0 || files[f].kind == 0) { errno = ENOENT; return -1; }
  if (files[f].kind == 2) { errno = EACCES; return -1; }
  return 0;
}
uid_t stub_getuid() { return 1000; }
char* stub_strerror_r(int, char* buf, size_t) { buf[0] = 'E'; buf[1] = 0; return buf; }
struct passwd* stub_getpwuid(uid_t)
{
  if (!pw_home) return nullptr;
  pwd_entry.pw_dir = (char*)pw_home;
  return &pwd_entry;
}
// basic_filebuf<char>::open and close.
void* stub__ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode(void* fb, char const* n, int)
{
  sx_assert(current == -1, "a file is opened while the previous one is not closed");
  int f = find(n);
  sx_assert(nopened < 4, "too many files are opened");
  opened[nopened++] = f;
  if (f < 0 || files[f].kind != 1) return nullptr;
  current = f; nextline = 0;
  return fb;
}
void* stub__ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv(void* fb)
{
  if (current == -1) return nullptr;
  current = -1;
  return fb;
}
std::istream& stub__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream& is, std::string& s, char)
{
  if (!is.good()) { is.setstate(std::ios_base::failbit); return is; }
  s.clear();
  if (current < 0 || nextline >= files[current].nlines) { is.setstate(std::ios_base::failbit | std::ios_base::eofbit); return is; }
  s = files[current].lines[nextline++];
  return is;
}
void stub_abort() { ended(true); }
void stub__Exit(int code) { sx_assert(code == 180, "wrong exit code"); ended(false); }
int stub_nanosleep(struct timespec const*, struct timespec*) { return 0; }
}
static Cap cap, err;
static char const* phrase;              // Must be part of the fatal message.
static bool contains(CapBuf const& c, char const* s)
{
  int n = strlen(s);
  for (int i = 0; i + n <= c.n; ++i) if (memcmp(c.data + i, s, n) == 0) return true;
  return false;
}
static void ended(bool core)
{
  sx_observe(cap.data, cap.n < 40 ? cap.n : 40, "out");
  sx_assert(fatal_expected >= 0, "reading the file terminated the program");
  sx_assert(!core, "aborted instead of exit(180)");
  if (phrase) sx_assert(contains(cap, phrase), "the fatal message does not tell what is wrong");
  sx_cover("fatal");
  sx_done();
}
static void setup()
{
  capture_cerr(err);
  libcw_do.set_ostream(&cap.os);
  libcw_do.on();
}

static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v'; }
static std::string trim(std::string const& s)
{
  size_t b = 0, e = s.size();
  while (b < e && blank(s[b])) ++b;
  while (e > b && blank(s[e - 1])) --e;
  return s.substr(b, e - b);
}

struct MyRc : RcFile
{
  int n = 0;
  std::string k[4], v[4];
  bool unknown_keyword(std::string const& key, std::string const& value) override { if (n < 4) { k[n] = key; v[n] = value; } ++n; return false; }
};

// Every line is either ignored, a syntax error, or a keyword with a value.
extern "C" void h_rc_line()
{
  setup();
  std::string line;
  int n = sx_choice(NSYM + 1, "len");
  char buf[NSYM + 1];
  sx_symbolic(buf, n, "line");
  for (int i = 0; i < n; ++i) sx_assume(buf[i] != '\n');
  line.assign(buf, n);
#ifdef EQ
  line += EQ;
  int m = sx_choice(NSYM + 1, "len2");
  char buf2[NSYM + 1];
  sx_symbolic(buf2, m, "rest");
  for (int i = 0; i < m; ++i) sx_assume(buf2[i] != '\n');
  line.append(buf2, m);
#endif
  static std::string l[2];
  l[0] = line; l[1] = " last\t=  value \v";
  files[nfiles++] = {".libcwdrc", 1, 2, l};
  // What it means.
  std::string t = trim(line), key, value;
  int eq = -1;
  for (int i = 0; i < (int)t.size() && eq < 0; ++i) if (t[i] == '=') eq = i;
  bool ignored = t.empty() || t[0] == '#', bad = !ignored && eq <= 0;
  MyRc rc;
  if (bad) { fatal_expected = 1; phrase = ".libcwdrc:1: syntax error"; rc.read(); sx_fail("a syntax error is not noticed"); }
  if (!ignored)
  {
    for (int i = 0; i < eq && !blank(t[i]); ++i) key += t[i];
    value = trim(t.substr(eq + 1));
  }
  bool gdb = key == "gdb", xterm = key == "xterm";
  sx_assume(key != "silent");
  rc.read();
  sx_observe(&rc.n, sizeof rc.n, "keywords");
  sx_assert(rc.n == (ignored || gdb || xterm ? 1 : 2), "a line is skipped, or read twice");
  sx_assert(rc.gdb_bin() == (gdb ? value : "") && rc.konsole_command() == (xterm ? value : ""), "gdb or xterm is set wrongly");
  if (gdb || xterm) sx_cover("known");
  else if (!ignored)
  {
    sx_assert(same(rc.k[0].data(), rc.k[0].size(), key.data(), key.size()), "wrong keyword");
    sx_assert(same(rc.v[0].data(), rc.v[0].size(), value.data(), value.size()), "wrong value");
    sx_cover("keyword");
  }
  else sx_cover("ignored");
  sx_assert(rc.k[rc.n - 1] == "last" && rc.v[rc.n - 1] == "value", "the line after it is read wrongly");
  sx_assert(current == -1, "the file is not closed");
  sx_assert(rc.read_called(), "read_called() is false");
  sx_assert(!dc::rcfile.is_on(), "dc::rcfile is left on");
}

// ---- channels
static Channel* chans[16];
static std::string labels[16];
static int cnt[16];                     // Reference: -1 is on, otherwise the number of on() calls that are needed minus one.
static int nch, elf_start;
static int elf = -1, warn = -1;
static void collect()
{
  ForAllDebugChannels(chans[nch++] = &debugChannel;);
  for (int i = 0; i < nch; ++i)
  {
    char const* s = chans[i]->get_label();
    while (*s && *s != ' ') labels[i] += *s++;
    cnt[i] = chans[i]->is_on() ? -1 : 0;
    if (labels[i] == "ELFUTILS") elf = i;
    if (labels[i] == "WARNING") warn = i;
  }
}
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool matches(char const* m, int ml, char const* s)
{
  if (ml == 0) return *s == 0;
  if (*m == '*') { for (;; ++s) { if (matches(m + 1, ml - 1, s)) return true; if (!*s) return false; } }
  return *s && up(*m) == up(*s) && matches(m + 1, ml - 1, s + 1);
}
static void turn(int i, int action)     // 0 toggle, 1 on, 2 off
{
  if (cnt[i] == -1) { if (action != 1) cnt[i] = 0; }
  else if (action != 2) cnt[i] = -1;
}
static void apply_masks(std::string const& list, int action)
{
  size_t i = 0;
  while (i < list.size())
  {
    size_t b = i;
    while (i < list.size() && list[i] != ',' && !blank(list[i])) ++i;
    if (i > b)
      for (int c = 0; c < nch; ++c) if (matches(list.data() + b, i - b, labels[c].c_str())) turn(c, action);
    if (i < list.size()) ++i;
  }
}
static void check_channels()
{
  for (int i = 0; i < nch; ++i)
  {
    bool on = chans[i]->is_on();
    sx_observe(&on, 1, "on");
    sx_assert(on == (cnt[i] == -1), "a channel is not in the state that the file asks for");
    // And on() turns it on again.  ELFUTILS is turned on last: as often as it was off before is fine too.
    if (i == elf && !on && elf_start > cnt[i] && (chans[i]->on(), !chans[i]->is_on())) cnt[i] = elf_start - 1;
    if (i == elf && chans[i]->is_on()) continue;
    for (int k = cnt[i]; k >= 0; --k)
    {
      sx_assert(!chans[i]->is_on(), "a channel went on too early");
      chans[i]->on();
    }
    sx_assert(chans[i]->is_on(), "a channel that was turned off needs more than one on()");
  }
  sx_assert(!dc::rcfile.is_on(), "dc::rcfile is left on");
  dc::rcfile.on();
  sx_assert(dc::rcfile.is_on(), "dc::rcfile is left off too often");
}

// Arbitrary masks.
extern "C" void h_rc_masks()
{
  setup();
  collect();
  int action = sx_choice(3, "action");
  for (int i = 0; i < nch; ++i)
    if (i == elf || labels[i] == "NOTICE")
      if (sx_choice(2, "start") && cnt[i] != -1) { chans[i]->on(); cnt[i] = -1; }
  static char const* const keys[] = {"channels_toggle", "channels_on", "channels_off"};
  std::string list;
  int n = sx_choice(NSYM + 1, "len");
  char buf[NSYM + 1];
  sx_symbolic(buf, n, "list");
  for (int i = 0; i < n; ++i) sx_assume(buf[i] != '\n' && buf[i] != 0);
  list.assign(buf, n);
#ifdef TAIL
  list += TAIL;
#endif
  static std::string l[2];
  l[0] = "channels_default = off";
  l[1] = std::string(keys[action]) + "=" + list;
  files[nfiles++] = {".libcwdrc", 1, 2, l};
  for (int i = 0; i < nch; ++i) turn(i, 2);
  apply_masks(list, action);
  MyRc rc;
  rc.read();
  check_channels();
  sx_cover("end");
}

// Histories of lines in one or two files.
extern "C" void h_rc_files()
{
  setup();
  collect();
#if START
  // A channel may be on, off, or off twice before the file is read.
  for (int i = 0; i < nch; ++i)
    if (i == elf || i == warn || labels[i] == "NOTICE")
    {
      int s = sx_choice(3, "start");
      while (cnt[i] != s - 1) if (cnt[i] < s - 1) { chans[i]->off(); ++cnt[i]; } else { chans[i]->on(); --cnt[i]; }
    }
#endif
  elf_start = cnt[elf];
  static std::string l[2][LINES + 1];
  bool two = sx_choice(2, "override");
  bool seen_default = false, default_on = false, fatal = false, noisy = false, silent = false;
  std::string gdb, xterm;
  bool changed = false;                 // channels_on in the first file.
  int total = LINES;
  for (int f = 0; f <= two && !fatal; ++f)
  {
    bool here = false, reset = false;
    int n = f == two ? total : sx_choice(total + 1, "lines");
    total -= n;
    for (int i = 0; i < n && !fatal; ++i)
    {
      std::string& line = l[f][i];
      ++files[f].nlines;
      int op = sx_choice(10, "op");
      if (op <= 1)
      {
        line = op ? "channels_default = off" : "channels_default = on";
        if (!silent) noisy = true;
        if (here) { noisy = true; continue; } // Ignored.
        here = seen_default = true;
        default_on = op == 0;
        for (int c = 0; c < nch; ++c) turn(c, default_on ? 1 : 2);
      }
      else if (op <= 4)
      {
        static char const* const lists[] = {"n*t*e", "ELFUTILS, warning", "*,\tnotice"};
        static char const* const keys[] = {"channels_toggle", "channels_on", "channels_off"};
        int which = sx_choice(3, "masks"), action = op - 2;
        line = std::string(keys[action]) + " = " + lists[which];
        if (!silent) noisy = true;
        if (action == 0 && !seen_default) { fatal = true; phrase = "channels_toggle used before channels_default"; break; }
        if (f == 1 && !reset)
        {
          // The first channels_on in the second file starts from all channels off. When the default is off then the
          // documentation and the code disagree on the channels that the first file turned on: left open.
          if (action == 1)
          {
            if (seen_default && !default_on) sx_assume(!changed);
            else
            {
              reset = true;
              for (int c = 0; c < nch; ++c) turn(c, 2);
              if (!seen_default) turn(warn, 1);
            }
          }
          if (action == 2 && seen_default && !default_on)
          {
            reset = true;
            for (int c = 0; c < nch; ++c) turn(c, 1);
          }
        }
        if (action != 2) changed = true;
        apply_masks(lists[which], action);
      }
      else if (op == 5 || op == 6)
      {
        silent = op == 5;
        line = silent ? "  silent=on" : "silent = off\t";
      }
      else if (op == 7) { line = f ? "gdb = override -x = $F" : "gdb=/usr/bin/gdb $F"; gdb = f ? "override -x = $F" : "/usr/bin/gdb $F"; if (!silent) noisy = true; }
      else if (op == 8) { line = "xterm = x -e %s # no comment"; xterm = "x -e %s # no comment"; if (!silent) noisy = true; }
      else { line = "channels_default = maybe"; fatal = !here; if (!silent || here) noisy = true; if (fatal) phrase = "syntax error"; }
    }
  }
  files[0].name = ".libcwdrc"; files[0].kind = 1; files[0].lines = l[0];
  files[1].name = "over"; files[1].kind = 1; files[1].lines = l[1];
  nfiles = 2;
  if (two) env_override = "over";
  if (fatal) fatal_expected = 1;
  MyRc rc;
  rc.read();
  sx_assert(!fatal, "an error in the file is ignored");
  sx_assert(rc.n == 0, "a keyword is not recognized");
  sx_assert(noisy || cap.n == 0, "output in spite of silent = on");
  sx_assert(rc.gdb_bin() == gdb && rc.konsole_command() == xterm, "gdb or xterm is set wrongly");
  sx_assert(nopened == (two ? 2 : 1) && opened[0] == 0 && (!two || opened[1] == 1) && current == -1, "the files are not each read once");
  check_channels();
  sx_cover("end");
}

// Where the file is looked for.
extern "C" void h_rc_where()
{
  setup();
  bool named = sx_choice(2, "LIBCWD_RCFILE_NAME");
  if (named) env_name = "my.rc";
  int he = sx_choice(3, "HOME"), pe = sx_choice(3, "passwd");
  if (he) env_home = he == 1 ? "/h" : "";
  if (pe) pw_home = pe == 1 ? "/p" : "/h";
  static char const* const names[2][4] = {{".libcwdrc", "/h/.libcwdrc", "/p/.libcwdrc", CW_DATADIR "/libcwd/libcwdrc"}, {"my.rc", "/h/my.rc", "/p/my.rc", CW_DATADIR "/libcwd/libcwdrc"}};
  static std::string l[4];
  for (int i = 0; i < 4; ++i)
  {
    l[i] = std::string("gdb = ") + (char)('0' + i);
    files[nfiles++] = {names[named][i], sx_choice(4, "kind"), 1, &l[i]};
  }
  int again = sx_choice(2, "again");
  if (again && sx_choice(2, "override")) env_override = "nowhere";
  // The first regular file of: the current directory, $HOME, the home directory, and (for the default name only) the default file.
  int order[4], no = 0, want = -1;
  order[no++] = 0;
  if (he == 1) order[no++] = 1;
  if (pe && !(pe == 2 && he == 1)) order[no++] = pe == 1 ? 2 : 1;
  if (!named) order[no++] = 3;
  for (int i = 0; i < no && want < 0; ++i)
  {
    int k = files[order[i]].kind;
    if (k == 1) want = order[i];
    if (k == 2) { want = -2; phrase = files[order[i]].name; break; }
  }
  if (want < 0) fatal_expected = 1;
  if (want == -1) phrase = names[named][0];
  MyRc rc;
  for (int i = 0; i <= again; ++i)
  {
    nopened = 0;
    rc.read();
    sx_assert(want >= 0, "the program must not go on without a file");
    sx_assert(nopened == (env_override ? 2 : 1) && opened[0] == want, "the wrong file is read");
    sx_assert(rc.gdb_bin().size() == 1 && rc.gdb_bin()[0] == '0' + want, "the file is not read");
  }
  sx_assert(!dc::rcfile.is_on() && dc::warning.is_on(), "a channel is left in another state");
  sx_cover("end");
}
