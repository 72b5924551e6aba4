#include "h.h"
#include <libcwd/strerrno.h>
#include <errno.h>
struct Known { int e; char const* n; };
#define K(x) { x, #x }
static Known const known[] = {
  {0, "0"}, K(EPERM), K(ENOENT), K(ESRCH), K(EINTR), K(EIO), K(ENXIO), K(E2BIG), K(ENOEXEC), K(EBADF), K(ECHILD), K(EAGAIN), K(ENOMEM),
  K(EACCES), K(EFAULT), K(ENOTBLK), K(EBUSY), K(EEXIST), K(EXDEV), K(ENODEV), K(ENOTDIR), K(EISDIR), K(EINVAL), K(ENFILE), K(EMFILE),
  K(ENOTTY), K(ETXTBSY), K(EFBIG), K(ENOSPC), K(ESPIPE), K(EROFS), K(EMLINK), K(EPIPE), K(EDOM), K(ERANGE), K(EDEADLK), K(ENAMETOOLONG),
  K(ENOLCK), K(ENOSYS), K(ENOTEMPTY), K(ELOOP), K(ENOMSG), K(EIDRM), K(ECHRNG), K(EL2NSYNC), K(EL3HLT), K(EL3RST), K(ELNRNG), K(EUNATCH),
  K(ENOCSI), K(EL2HLT), K(EBADE), K(EBADR), K(EXFULL), K(ENOANO), K(EBADRQC), K(EBADSLT), K(EBFONT), K(ENOSTR), K(ENODATA), K(ETIME),
  K(ENOSR), K(ENONET), K(ENOPKG), K(EREMOTE), K(ENOLINK), K(EADV), K(ESRMNT), K(ECOMM), K(EPROTO), K(EMULTIHOP), K(EDOTDOT), K(EBADMSG),
  K(EOVERFLOW), K(ENOTUNIQ), K(EBADFD), K(EREMCHG), K(ELIBACC), K(ELIBBAD), K(ELIBSCN), K(ELIBMAX), K(ELIBEXEC), K(EILSEQ), K(ERESTART),
  K(ESTRPIPE), K(EUSERS), K(ENOTSOCK), K(EDESTADDRREQ), K(EMSGSIZE), K(EPROTOTYPE), K(ENOPROTOOPT), K(EPROTONOSUPPORT),
  K(ESOCKTNOSUPPORT), K(EOPNOTSUPP), K(EPFNOSUPPORT), K(EAFNOSUPPORT), K(EADDRINUSE), K(EADDRNOTAVAIL), K(ENETDOWN), K(ENETUNREACH),
  K(ENETRESET), K(ECONNABORTED), K(ECONNRESET), K(ENOBUFS), K(EISCONN), K(ENOTCONN), K(ESHUTDOWN), K(ETOOMANYREFS), K(ETIMEDOUT),
  K(ECONNREFUSED), K(EHOSTDOWN), K(EHOSTUNREACH), K(EALREADY), K(EINPROGRESS), K(ESTALE), K(EUCLEAN), K(ENOTNAM), K(ENAVAIL), K(EISNAM),
  K(EREMOTEIO), K(EDQUOT), K(ENOMEDIUM), K(EMEDIUMTYPE), K(ECANCELED), K(ENOKEY), K(EKEYEXPIRED), K(EKEYREVOKED), K(EKEYREJECTED), K(EOWNERDEAD),
  K(ENOTRECOVERABLE), K(ERFKILL), K(EHWPOISON) };

extern "C" void h_strerrno()
{
  unsigned int err = sx_any<unsigned int>("err");
  if (err < 256) err = sx_concretize(err);
  char const* r = libcwd::strerrno(err);
  sx_assert(r != nullptr, "strerrno returned NULL");
  int n = strlen(r);
  sx_observe(r, n, "name");
  // The name must be the macro of err and nothing else.
  for (Known const& k : known)
    if (err == (unsigned)k.e)
    {
      sx_assert(same(r, n, k.n, strlen(k.n)) | ((err > EDQUOT) & same(r, n, "UNKNOWN ERROR", 13)), "strerrno returned the wrong name");
      sx_cover("known");
      return;
    }
  // Not a (Linux) errno value.
  for (Known const& k : known)
    if (k.e) sx_assert(!same(r, n, k.n, strlen(k.n)), "strerrno returned the name of another value");
  if (err > EDQUOT) sx_assert(same(r, n, "UNKNOWN ERROR", 13), "strerrno of an unknown value");
  sx_cover("unknown");
}
