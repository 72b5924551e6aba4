// C library model (symbolic runs only).
#include <stddef.h>
#include <stdint.h>

static _Thread_local int sx_errno;
int* __errno_location(void) { return &sx_errno; }

size_t strlen(char const* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(char const* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(char const* a, char const* b)
{
  while (*a && *a == *b) { ++a; ++b; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(char const* a, char const* b, size_t n)
{
  for (; n; --n, ++a, ++b)
  {
    if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isalpha(int c) { return islower(c) || isupper(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int strcasecmp(char const* a, char const* b)
{
  for (;; ++a, ++b)
  {
    int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
}
int strncasecmp(char const* a, char const* b, size_t n)
{
  for (; n; --n, ++a, ++b)
  {
    int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
char* strcpy(char* d, char const* s) { char* r = d; while ((*d++ = *s++)) { } return r; }
char* stpcpy(char* d, char const* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strcat(char* d, char const* s) { strcpy(d + strlen(d), s); return d; }
char* strncpy(char* d, char const* s, size_t n)
{
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char* strchr(char const* s, int c)
{
  for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
char* strrchr(char const* s, int c)
{
  char const* r = 0;
  for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
void* memchr(void const* s, int c, size_t n)
{
  unsigned char const* p = (unsigned char const*)s;
  for (; n; --n, ++p) if (*p == (unsigned char)c) return (void*)p;
  return 0;
}
char* strstr(char const* h, char const* n)
{
  size_t l = strlen(n);
  for (;; ++h) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return 0; }
}
int abs(int x) { return x < 0 ? -x : x; }
int atoi(char const* s) { int n = 0, neg = 0; while (isspace((unsigned char)*s)) ++s; if (*s == '-') { neg = 1; ++s; } else if (*s == '+') ++s; while (isdigit((unsigned char)*s)) n = 10 * n + (*s++ - '0'); return neg ? -n : n; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
void* malloc(size_t);
void* memcpy(void*, void const*, size_t);
void* mempcpy(void* d, void const* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
char* strncat(char* d, char const* s, size_t n)
{
  char* p = d + strlen(d);
  while (n-- && *s) *p++ = *s++;
  *p = 0;
  return d;
}
char* strdup(char const* s) { size_t n = strlen(s) + 1; return (char*)memcpy(malloc(n), s, n); }
char* strndup(char const* s, size_t m) { size_t n = strnlen(s, m); char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
size_t strspn(char const* s, char const* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(char const* s, char const* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(char const* s, char const* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, char const* d, char** save)
{
  if (!s) s = *save;
  s += strspn(s, d);
  if (!*s) { *save = s; return 0; }
  char* e = s + strcspn(s, d);
  if (*e) *e++ = 0;
  *save = e;
  return s;
}
static unsigned long sx_number(char const* s, char** e, int base, unsigned long pos, unsigned long neg)
{
  char const* b = s;
  while (isspace((unsigned char)*s)) ++s;
  int minus = *s == '-';
  if (*s == '-' || *s == '+') ++s;
  if ((base == 0 || base == 16) && *s == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2])) { s += 2; base = 16; }
  else if (base == 0) base = *s == '0' ? 8 : 10;
  unsigned long n = 0, max = minus ? neg : pos;
  int any = 0, over = 0;
  for (;; ++s)
  {
    int d = isdigit((unsigned char)*s) ? *s - '0' : isalpha((unsigned char)*s) ? tolower((unsigned char)*s) - 'a' + 10 : 99;
    if (d >= base) break;
    any = 1;
    if (n > (max - d) / base) over = 1;
    n = n * base + d;
  }
  if (e) *e = (char*)(any ? s : b);
  if (over) { *__errno_location() = 34; return max; }
  return minus ? -n : n;
}
#define LM 0x7fffffffffffffffUL
long __isoc23_strtol(char const* s, char** e, int b) { return (long)sx_number(s, e, b, LM, LM + 1); }
long __isoc23_strtoll(char const* s, char** e, int b) { return (long)sx_number(s, e, b, LM, LM + 1); }
unsigned long __isoc23_strtoul(char const* s, char** e, int b) { return sx_number(s, e, b, -1UL, -1UL); }
unsigned long __isoc23_strtoull(char const* s, char** e, int b) { return sx_number(s, e, b, -1UL, -1UL); }
long strtol(char const* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
long strtoll(char const* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
unsigned long strtoul(char const* s, char** e, int b) { return __isoc23_strtoul(s, e, b); }
unsigned long strtoull(char const* s, char** e, int b) { return __isoc23_strtoul(s, e, b); }
