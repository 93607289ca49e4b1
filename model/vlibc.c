/* String functions of the C library, compiled for CBMC only (the native replay uses libc). */
#if defined(VRT_CBMC) || defined(VRT_SYM)
#undef malloc
#undef calloc
#undef strdup
#undef free
#include <stddef.h>
#include <stdarg.h>
#include <limits.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n] != '\0') n++; return n; }
char *strchr(const char *s, int c)
{
    for (size_t i = 0; ; i++) { if (s[i] == (char)c) return (char *)s + i; if (s[i] == '\0') return NULL; }
}
char *strstr(const char *h, const char *n)
{
    for (size_t i = 0; ; i++)
    {
        size_t j = 0;
        while (n[j] != '\0' && h[i + j] == n[j]) j++;
        if (n[j] == '\0') return (char *)h + i;
        if (h[i] == '\0') return NULL;
    }
}
/* without branches: one path for all characters */
#define IN(c, a, b) ((unsigned)(c) - (a) <= (unsigned)((b) - (a)))
static int lower(int c) { return c + (IN(c, 'A', 'Z') << 5); }
int tolower(int c) { return lower(c); }
int toupper(int c) { return c - (IN(c, 'a', 'z') << 5); }
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isdigit(int c) { return IN(c, '0', '9'); }
int isalpha(int c) { return IN(c, 'a', 'z') | IN(c, 'A', 'Z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | IN(c, 'a', 'f') | IN(c, 'A', 'F'); }
int isprint(int c) { return IN(c, 32, 126); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int strcmp(const char *a, const char *b)
{
    for (size_t i = 0; ; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (a[i] == '\0') return 0; }
}
int strncmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (a[i] == '\0') return 0; }
    return 0;
}
int strcasecmp(const char *a, const char *b)
{
    for (size_t i = 0; ; i++)
    {
        int x = lower((unsigned char)a[i]), y = lower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (x == 0) return 0;
    }
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        int x = lower((unsigned char)a[i]), y = lower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (x == 0) return 0;
    }
    return 0;
}
char *strncpy(char *d, const char *s, size_t n)
{
    int end = 0;
    for (size_t i = 0; i < n; i++) { if (!end && s[i] == '\0') end = 1; d[i] = end ? '\0' : s[i]; }
    return d;
}
char *strcpy(char *d, const char *s)
{
    for (size_t i = 0; ; i++) { d[i] = s[i]; if (s[i] == '\0') return d; }
}
char *strsep(char **sp, const char *delim)
{
    char *s = *sp;
    if (s == NULL) return NULL;
    for (size_t i = 0; ; i++)
    {
        if (s[i] == '\0') { *sp = NULL; return s; }
        for (size_t j = 0; delim[j] != '\0'; j++) if (s[i] == delim[j]) { s[i] = '\0'; *sp = s + i + 1; return s; }
    }
}
static int digit(char c)
{
    return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'z') ? c - 'a' + 10 : (c >= 'A' && c <= 'Z') ? c - 'A' + 10 : 99;
}
/* saturating magnitude; returns the number of characters consumed, 0 if there is no number */
static size_t vnum(const char *s, int base, int *neg, unsigned long *val, int *over)
{
    size_t i = 0, st = 0;
    unsigned long v = 0;
    while (isspace((unsigned char)s[i])) i++;
    *neg = 0; *over = 0;
    if (s[i] == '-') { *neg = 1; i++; } else if (s[i] == '+') i++;
    if (base == 0)
    {
        if (s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && digit(s[i + 2]) < 16) { base = 16; i += 2; }
        else base = (s[i] == '0') ? 8 : 10;
    }
    else if (base == 16 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && digit(s[i + 2]) < 16) i += 2;
    st = i;
    while (digit(s[i]) < base)
    {
        if (v > (ULONG_MAX - digit(s[i])) / base) *over = 1; else v = v * base + digit(s[i]);
        i++;
    }
    *val = v;
    return i == st ? 0 : i;
}
unsigned long strtoul(const char *s, char **end, int base)
{
    int neg = 0, over = 0; unsigned long v = 0;
    size_t n = vnum(s, base, &neg, &v, &over);
    if (end != NULL) *end = (char *)s + n;
    return over ? ULONG_MAX : neg ? 0 - v : v;
}
long strtol(const char *s, char **end, int base)
{
    int neg = 0, over = 0; unsigned long v = 0;
    size_t n = vnum(s, base, &neg, &v, &over);
    if (end != NULL) *end = (char *)s + n;
    if (neg) return (over || v > (unsigned long)LONG_MAX) ? LONG_MIN : -(long)v;
    return (over || v > LONG_MAX) ? LONG_MAX : (long)v;
}
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
#ifdef VRT_CBMC
/* %s %d %u %x with l and z modifiers */
#define VOUT(ch) do { if (pos + 1 < n) b[pos] = (ch); pos++; } while (0)
int vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    size_t pos = 0;
    for (size_t i = 0; f[i] != '\0'; i++)
    {
        unsigned long v = 0;
        int lng = 0, neg = 0;
        unsigned base = 10;
        char t[24];
        int k = 0;
        if (f[i] != '%') { VOUT(f[i]); continue; }
        i++;
        if (f[i] == 'l' || f[i] == 'z') { lng = 1; i++; }
        if (f[i] == 's') { const char *s = va_arg(ap, const char *); for (size_t j = 0; s[j] != '\0'; j++) VOUT(s[j]); continue; }
        if (f[i] == '%') { VOUT('%'); continue; }
        __CPROVER_assert(f[i] == 'd' || f[i] == 'u' || f[i] == 'x', "conversion modelled");
        if (f[i] == 'x') base = 16;
        if (f[i] == 'd') { long d = lng ? va_arg(ap, long) : va_arg(ap, int); neg = d < 0; v = neg ? 0 - (unsigned long)d : (unsigned long)d; }
        else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
        if (neg) VOUT('-');
        do { unsigned g = v % base; t[k++] = g < 10 ? '0' + g : 'a' + (g - 10); v /= base; } while (v != 0);
        while (k > 0) { k--; VOUT(t[k]); }
    }
    if (n > 0) b[pos < n ? pos : n - 1] = '\0';
    return (int)pos;
}
int snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; int r = 0;
    va_start(ap, f); r = vsnprintf(b, n, f, ap); va_end(ap);
    return r;
}
/* literals, white space, %u %x %d and %s-free formats; one conversion */
int sscanf(const char *s, const char *f, ...)
{
    va_list ap; int r = 0, neg = 0, over = 0; unsigned long v = 0; size_t k = 0, j = 0;
    va_start(ap, f);
    for (size_t i = 0; f[i] != '\0'; i++)
    {
        if (f[i] != '%') { if (s[j] != f[i]) { if (s[j] == '\0' && r == 0) r = -1; break; } j++; continue; }
        i++;
        __CPROVER_assert(f[i] == 'd' || f[i] == 'u' || f[i] == 'x', "conversion modelled");
        k = vnum(s + j, f[i] == 'x' ? 16 : 10, &neg, &v, &over);
        if (k == 0) { size_t w = j; while (isspace((unsigned char)s[w])) w++; if (s[w] == '\0' && r == 0) r = -1; break; }
        *va_arg(ap, unsigned *) = over ? UINT_MAX : (unsigned)(neg ? 0 - v : v);
        j += k; r++;
    }
    va_end(ap);
    return r;
}
#endif
#endif
#ifdef VRT_SYM
unsigned short htons(unsigned short v) { return (unsigned short)((v << 8) | (v >> 8)); }
unsigned short ntohs(unsigned short v) { return (unsigned short)((v << 8) | (v >> 8)); }
unsigned htonl(unsigned v) { return (v << 24) | ((v & 0xff00u) << 8) | ((v >> 8) & 0xff00u) | (v >> 24); }
unsigned ntohl(unsigned v) { return (v << 24) | ((v & 0xff00u) << 8) | ((v >> 8) & 0xff00u) | (v >> 24); }
void *memchr(const void *s, int c, size_t n)
{
    for (size_t i = 0; i < n; i++) if (((const unsigned char *)s)[i] == (unsigned char)c) return (char *)s + i;
    return NULL;
}
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i] != '\0') i++; return i; }
char *strrchr(const char *s, int c)
{
    char *r = NULL;
    for (size_t i = 0; ; i++) { if (s[i] == (char)c) r = (char *)s + i; if (s[i] == '\0') return r; }
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n)
{
    size_t k = strlen(d), i = 0;
    for (; i < n && s[i] != '\0'; i++) d[k + i] = s[i];
    d[k + i] = '\0';
    return d;
}
static int vin(char c, const char *set) { int r = 0; for (size_t i = 0; set[i] != '\0'; i++) r |= set[i] == c; return r; }
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] != '\0' && vin(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] != '\0' && !vin(s[i], set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s != '\0' ? (char *)s : NULL; }
#endif
