/* C library string functions, executed symbolically like the rest of the code */
typedef unsigned long size_t;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { size_t i = 0; for (;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { size_t i = 0; for (; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { size_t i = 0; for (;; i++) { int x = lo((unsigned char)a[i]), y = lo((unsigned char)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d + i; } }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
int tolower(int c) { return lo(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
long strtol(const char *s, char **e, int base) { long v = 0; int neg = 0; const char *p = s; while (isspace(*p)) p++; if (*p == '-' || *p == '+') neg = *p++ == '-'; const char *q = p; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); if (e) *e = (char *)(p == q ? s : p); return neg ? -v : v; }
long __isoc23_strtol(const char *s, char **e, int base) { return strtol(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long labs(long x) { return x < 0 ? -x : x; }
int abs(int x) { return x < 0 ? -x : x; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = lo((unsigned char)a[i]), y = lo((unsigned char)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
size_t strspn(const char *s, const char *c) { size_t i = 0; for (; s[i]; i++) if (!strchr(c, s[i])) break; return i; }
size_t strcspn(const char *s, const char *c) { size_t i = 0; for (; s[i]; i++) if (strchr(c, s[i])) break; return i; }
char *strpbrk(const char *s, const char *c) { s += strcspn(s, c); return *s ? (char *)s : 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isblank(int c) { return c == ' ' || c == '\t'; }
long atol(const char *s) { return strtol(s, 0, 10); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
void qsort(void *b, size_t n, size_t z, int (*cmp)(const void *, const void *)) { /* any order of equal elements is allowed: this one keeps it */
  char *a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * z, a + j * z) > 0; j--) {
    char *x = a + (j - 1) * z, *y = a + j * z; if (z % 8 == 0) for (size_t k = 0; k < z / 8; k++) { long t = ((long *)x)[k]; ((long *)x)[k] = ((long *)y)[k]; ((long *)y)[k] = t; } else if (z % 4 == 0) for (size_t k = 0; k < z / 4; k++) { int t = ((int *)x)[k]; ((int *)x)[k] = ((int *)y)[k]; ((int *)y)[k] = t; } else for (size_t k = 0; k < z; k++) { char t = x[k]; x[k] = y[k]; y[k] = t; } } }
void *bsearch(const void *k, const void *b, size_t n, size_t z, int (*cmp)(const void *, const void *)) { size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; const char *p = (const char *)b + m * z; int c = cmp(k, p); if (!c) return (void *)p; if (c < 0) h = m; else l = m + 1; } return 0; }

/* parts of the C++ library that are not in its headers */
struct LN { struct LN *next, *prev; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(struct LN *t, struct LN *p) { t->next = p; t->prev = p->prev; p->prev->next = t; p->prev = t; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(struct LN *t) { t->next->prev = t->prev; t->prev->next = t->next; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(struct LN *t, struct LN *f, struct LN *l) { if (t == l) return; l->prev->next = t; f->prev->next = l; t->prev->next = f; struct LN *x = t->prev; t->prev = l->prev; l->prev = f->prev; f->prev = x; }
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(struct LN *a, struct LN *b) { struct LN ta = *a, tb = *b; if (ta.next == a) { if (tb.next != b) { *a = tb; a->next->prev = a; a->prev->next = a; b->next = b->prev = b; } } else if (tb.next == b) { *b = ta; b->next->prev = b; b->prev->next = b; a->next = a->prev = a; } else { *a = tb; *b = ta; a->next->prev = a->prev->next = a; b->next->prev = b->prev->next = b; } }
/* std::map and std::set: a search tree kept without rebalancing (the colours are not used by the headers) */
struct RB { int color; struct RB *parent, *left, *right; };
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(_Bool l, struct RB *x, struct RB *p, struct RB *h) {
  x->parent = p; x->left = x->right = 0; x->color = 1;
  if (l) { p->left = x; if (p == h) { h->parent = x; h->right = x; } else if (p == h->left) h->left = x; } else { p->right = x; if (p == h->right) h->right = x; }
}
struct RB *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(struct RB *x) { if (x->right) { x = x->right; while (x->left) x = x->left; } else { struct RB *y = x->parent; while (x == y->right) { x = y; y = y->parent; } if (x->right != y) x = y; } return x; }
struct RB *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(struct RB *x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
struct RB *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(struct RB *x) { if (x->color == 0 && x->parent && x->parent->parent == x) return x->right; if (x->left) { x = x->left; while (x->right) x = x->right; return x; } struct RB *y = x->parent; while (x == y->left) { x = y; y = y->parent; } return y; }
struct RB *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(struct RB *x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
struct RB *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(struct RB *z, struct RB *h) {
  struct RB *n; if (h->left == z) h->left = z->right ? 0 : z->parent; if (h->right == z) h->right = z->left ? 0 : z->parent;
  if (!z->left) n = z->right; else if (!z->right) n = z->left; else { struct RB *y = z->right; while (y->left) y = y->left; if (y != z->right) { y->parent->left = y->right; if (y->right) y->right->parent = y->parent; y->right = z->right; z->right->parent = y; } y->left = z->left; z->left->parent = y; n = y; }
  if (h->parent == z) h->parent = n; else if (z->parent->left == z) z->parent->left = n; else z->parent->right = n; if (n) n->parent = z->parent;
  if (!h->left) { struct RB *m = z->right; while (m->left) m = m->left; h->left = m; } if (!h->right) { struct RB *m = z->left; while (m->right) m = m->right; h->right = m; }
  return z;
}
/* std::unordered_map and set: the growth of the bucket count */
struct RP { float f; size_t next; };
static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271, 256279, 520241, 1056323};
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(struct RP *p, size_t n) { for (int i = 0; i < 19; i++) if (primes[i] >= n) { p->next = primes[i]; return primes[i]; } p->next = n; return n; }
struct PB { _Bool b; size_t n; };
struct PB _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(struct RP *p, size_t bkt, size_t elt, size_t ins) { struct PB r = {0, 0}; if (elt + ins > p->next) { size_t m = elt + ins, g = bkt * 2; if (!p->next && m < 11) m = 11; if (m > bkt) { r.b = 1; r.n = _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(p, m > g ? m : g); return r; } p->next = bkt; } return r; }
size_t _ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) { const unsigned char *c = p; size_t h = seed ^ n; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3UL; return h; }
