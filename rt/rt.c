// C library functions executed symbolically (linked into the IR only; the replay uses libc).
#include <stddef.h>
#include <stdint.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
size_t wcslen(const int *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && low((unsigned char)*a) == low((unsigned char)*b)) { a++; b++; } return low((unsigned char)*a) - low((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && low((unsigned char)*a) == low((unsigned char)*b)) { a++; b++; n--; } return n ? low((unsigned char)*a) - low((unsigned char)*b) : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)); return r; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return 0; } }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
int tolower(int c) { return low(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int vp_errno_var;
int *__errno_location(void) { return &vp_errno_var; }

// formatted output: integers, characters and text; anything else is reported as unsupported
#include <stdarg.h>
extern void vp_unsupported(const char *);
static int fmt(char *d, size_t cap, const char *f, va_list ap) {
	size_t o = 0;
#define PUT(c) do { char c_ = (c); if (o + 1 < cap) d[o] = c_; o++; } while (0)
	for (; *f; f++) {
		if (*f != '%') { PUT(*f); continue; }
		int zero = 0, left = 0, plus = 0, lng = 0; size_t width = 0, prec = 0; int hasprec = 0; f++;
		for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = 1; else break; }
		if (*f == '*') { width = (size_t)va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (size_t)(*f++ - '0');
		if (*f == '.') { hasprec = 1; f++; if (*f == '*') { prec = (size_t)va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (size_t)(*f++ - '0'); }
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = 1; f++; } while (*f == 'h') f++;
		char t[72]; size_t n = 0; const char *p = t; int neg = 0;
		if (*f == '%') { PUT('%'); continue; }
		else if (*f == 'c') { t[0] = (char)va_arg(ap, int); n = 1; zero = 0; }
		else if (*f == 's') { p = va_arg(ap, const char *); while ((!hasprec || n < prec) && p[n]) n++; zero = 0; }
		else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p') {
			unsigned long v; if (*f == 'p') lng = 1;
			if (*f == 'd' || *f == 'i') { long s = lng ? va_arg(ap, long) : va_arg(ap, int); neg = s < 0; v = neg ? 0 - (unsigned long)s : (unsigned long)s; } else { plus = 0; v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); }
			unsigned long base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; char u[72]; size_t k = 0; do { unsigned long q = v % base; u[k++] = (char)(q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + q - 10); v /= base; } while (v);
			if (hasprec) { zero = 0; while (k < prec && k < 70) u[k++] = '0'; } else if (zero && !left) while (k + (neg || plus) < width && k < 70) u[k++] = '0';
			if (neg) u[k++] = '-'; else if (plus) u[k++] = '+'; while (k) t[n++] = u[--k];
		}
		else { vp_unsupported("printf conversion"); return -1; }
		if (!left) for (size_t i = n; i < width; i++) PUT(' ');
		for (size_t i = 0; i < n; i++) PUT(p[i]);
		if (left) for (size_t i = n; i < width; i++) PUT(' ');
	}
	if (cap) d[o < cap ? o : cap - 1] = 0;
	return (int)o;
}
int vsnprintf(char *d, size_t n, const char *f, va_list ap) { return fmt(d, n, f, ap); }
int vsprintf(char *d, const char *f, va_list ap) { return fmt(d, (size_t)-1 >> 1, f, ap); }
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(d, n, f, ap); va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(d, (size_t)-1 >> 1, f, ap); va_end(ap); return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
size_t strspn(const char *s, const char *set) { size_t n = 0; for (; s[n]; n++) { const char *p = set; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; for (; s[n]; n++) { const char *p = set; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : 0; }
void *memrchr(const void *m, int c, size_t n) { const unsigned char *p = m; while (n) if (p[--n] == (unsigned char)c) return (void *)(p + n); return 0; }
void *memmem(const void *h, size_t hn, const void *p, size_t pn) { const char *a = h, *b = p; for (size_t i = 0; i + pn <= hn; i++) { size_t k = 0; while (k < pn && a[i + k] == b[k]) k++; if (k == pn) return (void *)(a + i); } return 0; }
void *mempcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return a + n; }
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if (r) for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; } return r; }
unsigned long strtoul(const char *s, char **e, int base) { const char *o = s; while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; int neg = 0; if (*s == '-' || *s == '+') neg = *s++ == '-'; if ((base == 0 || base == 16) && *s == '0' && (s[1] | 32) == 'x') { s += 2; base = 16; } if (!base) base = *s == '0' ? 8 : 10; unsigned long v = 0; int any = 0; for (;; s++) { int d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'z' ? (*s | 32) - 'a' + 10 : 99; if (d >= base) break; v = v * (unsigned long)base + (unsigned long)d; any = 1; } if (e) *e = (char *)(any ? s : o); return neg ? 0 - v : v; }
long strtol(const char *s, char **e, int b) { return (long)strtoul(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return (long long)strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
// An exception of the standard library ends the program: nothing in the repository catches one.
void abort(void);
void _ZSt16__throw_bad_castv() { abort(); }
void _ZSt17__throw_bad_allocv() { abort(); }
void _ZSt19__throw_logic_errorPKc() { abort(); }
void _ZSt19__throw_range_errorPKc() { abort(); }
void _ZSt20__throw_domain_errorPKc() { abort(); }
void _ZSt20__throw_length_errorPKc() { abort(); }
void _ZSt20__throw_out_of_rangePKc() { abort(); }
void _ZSt21__throw_runtime_errorPKc() { abort(); }
void _ZSt22__throw_overflow_errorPKc() { abort(); }
void _ZSt24__throw_invalid_argumentPKc() { abort(); }
void _ZSt24__throw_out_of_range_fmtPKcz() { abort(); }
void _ZSt25__throw_bad_function_callv() { abort(); }
void _ZSt28__throw_bad_array_new_lengthv() { abort(); }
