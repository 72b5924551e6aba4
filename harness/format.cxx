// The text of one Dout: <color_on> <margin> <label> <marker> <indent> <data> <error text> <color_off> newline, as modified by the flags.
#include "dbg.h"
#ifndef LL
#define LL 1
#endif
extern "C" char* stub_strerror_r(int e, char* buf, size_t)
{
  buf[0] = 'E'; buf[1] = 0;
  return buf;
}
// Writing a Touch to an ostream changes errno.
struct Touch { int e; };
static std::ostream& operator<<(std::ostream& os, Touch t) { errno = t.e; return os; }
// Standard input: a line of 0 to 2 bytes, ended by a newline or by the end of the input.
struct In : std::streambuf
{
  char data[3];
  int n = 0, pos = 0, at_end = 0;
  int_type underflow() override
  {
    if (pos == n) { if (++at_end == 8) sx_fail("waits for a newline after the end of the input"); return traits_type::eof(); }
    return traits_type::to_int_type(data[pos]);
  }
  int_type uflow() override { int_type c = underflow(); if (pos < n) ++pos; return c; }
};

extern "C" void h_format()
{
  Cap cap, err;
  capture_cerr(err);
  libcw_do.set_ostream(&cap.os);
  libcw_do.on();
  dc::notice.on();
#ifdef ERRNO
  Str con = {"<", 1}, coff = {">", 1}, margin = {"M", 1}, marker = {": ", 2};
  libcw_do.color_on().assign(con.s, con.n);
  libcw_do.color_off().assign(coff.s, coff.n);
#elif defined COLORS
  Str con = any_str(LL, "color_on"), coff = any_str(LL, "color_off"), margin = {"M", 1}, marker = {": ", 2};
  libcw_do.color_on().assign(con.s, con.n);
  libcw_do.color_off().assign(coff.s, coff.n);
#else
  Str con = {"", 0}, coff = {"", 0}, margin = any_str(LL, "margin"), marker = any_str(LL, "marker");
  libcw_do.marker().assign(marker.s, marker.n);
#endif
  libcw_do.margin().assign(margin.s, margin.n);
#ifdef ERRNO
  int indent = 0;
#else
  int indent = sx_choice(3, "indent");
#endif
  libcw_do.set_indent(indent);
  In in;
  control_flag_t f = sx_any<control_flag_t>("flags");
#ifdef ERRNO
  sx_assume((f & ~(nonewline_cf | noprefix_cf | error_cf | cerr_cf)) == 0);
#elif defined COLORS
  sx_assume((f & ~(nonewline_cf | noprefix_cf | nolabel_cf | cerr_cf | wait_cf | flush_cf)) == 0);
#else
  sx_assume((f & ~(nonewline_cf | noprefix_cf | nolabel_cf | blank_margin_cf | blank_label_cf | blank_marker_cf | flush_cf)) == 0);
#endif
  if (sx_symbolic_run()) new (&std::cin) std::istream(&in);
  else std::cin.rdbuf(&in);
  bool end_of_input = false;
  if (f & wait_cf)
  {
    in.n = sx_choice(3, "typed");
    sx_symbolic(in.data, in.n, "typed_data");
    for (int i = 0; i < in.n; ++i) sx_assume(in.data[i] != '\n');
    if (!(end_of_input = sx_choice(2, "end_of_input"))) in.data[in.n++] = '\n';
  }
  char data[2];
  sx_symbolic(data, 2, "data");
  int e = sx_any<int>("errno");
  sx_assume(e >= 0);
  bool always = sx_choice(2, "always_flush");
  if (always) libcw_do.always_flush_on();
  errno = e;
#ifdef ERRNO
  DOUT(dc::notice | f, data[0] << Touch{sx_any<int>("errno2")} << data[1]);
#else
  DOUT(dc::notice | f, data[0] << data[1]);
#endif

  Text t;
  t.put(con.s, con.n);
  if (!(f & noprefix_cf))
  {
    if (f & blank_margin_cf) t.pad(margin.n); else t.put(margin.s, margin.n);
    if (!(f & nolabel_cf))
    {
      t.put(f & blank_label_cf ? "        " : "NOTICE  ");
      if (f & blank_marker_cf) t.pad(marker.n); else t.put(marker.s, marker.n);
      t.pad(indent);
    }
  }
  t.put(data[0]); t.put(data[1]);
  if (f & error_cf)
  {
    t.put(": ");
    if (e < 256) e = sx_concretize(e);
    t.put(strerrno(e));
    t.put(" (E)");
  }
  if (!(f & nonewline_cf)) { t.put(coff.s, coff.n); t.put('\n'); }
  if (f & wait_cf) t.put("(type return)");
  CapBuf& target = f & cerr_cf ? (CapBuf&)err : (CapBuf&)cap;
  CapBuf& other = f & cerr_cf ? (CapBuf&)cap : (CapBuf&)err;
  sx_observe(target.data, target.n, "out");
  sx_assert(same(target, t), "the line is not what was asked for");
  sx_assert(other.n == 0, "output was written to the wrong stream");
  if (f & wait_cf) sx_assert(in.pos == in.n && (in.at_end > 0) == end_of_input && target.flushes >= 1, "wait_cf did not wait for a newline");
  else
  {
    sx_assert(in.pos == 0 && in.at_end == 0, "waited without wait_cf");
    // std::cerr may flush by itself.
    sx_assert(f & cerr_cf ? target.flushes > 0 || !(always || (f & flush_cf)) : (target.flushes > 0) == (always || (f & flush_cf)), "the stream was not flushed as requested");
  }
  sx_cover("end");
}
