// Plain definitions of libc functions for the symbolic build.
typedef unsigned long size_t;
#define NULL ((void*)0)
void* malloc(size_t);
void* memcpy(void*, const void*, size_t);
size_t strlen(const char*);
// ------------------------------------------------------------------ libc
char* strstr(const char* h, const char* n) {
  if (!*n) return (char*)h;
  for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; }
  return NULL;
}
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
static int vp_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && vp_lower((unsigned char)*a) == vp_lower((unsigned char)*b)) { a++; b++; } return vp_lower((unsigned char)*a) - vp_lower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = vp_lower((unsigned char)*a), y = vp_lower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strrchr(const char* s, int c) { const char* r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strspn(const char* s, const char* a) { size_t i = 0; for (; ; i++) { int in = 0; for (const char* p = a; *p; p++) in |= *p == s[i]; if (!in) break; } return i; }
size_t strcspn(const char* s, const char* a) { size_t i = 0; for (; ; i++) { int in = s[i] == 0; for (const char* p = a; *p; p++) in |= *p == s[i]; if (in) break; } return i; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
// ctype in the C locale
int isalpha(int c);
int isalnum(int c);
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isxdigit(int c) { return ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) | ((c >= '0') & (c <= '9')); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isprint(int c) { return (c >= 32) & (c <= 126); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int toupper(int c) { return ((c >= 'a') & (c <= 'z')) ? c - 32 : c; }
int tolower(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
