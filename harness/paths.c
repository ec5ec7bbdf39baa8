/* C27 paths, C28 path lists, C29 standard directories. */
#include "vp_alloc.h"
#include "vfs.h"
#include "libcork/core/error.h"
#include "libcork/os/files.h"
#define MAXP 64
/* the k-th string over "/a." ordered by length */
static size_t word(unsigned k, char *s)
{
    static const char abc[] = "a/.";
    size_t n = 0; unsigned count = 1;
    while (k >= count) { k -= count; count *= 3; n++; }
    for (size_t i = 0; i < n; i++, k /= 3) s[i] = abc[k % 3];
    s[n] = 0;
    return n;
}
static void is(const struct cork_path *p, const char *s, size_t n)
{
    CHECK(p != NULL && cork_path_get(p) != NULL, "a path has a string");
    for (size_t i = 0; i < n; i++) CHECK(cork_path_get(p)[i] == s[i], "the path expected");
    CHECK(cork_path_get(p)[n] == 0, "the path expected");
}
static size_t cat(char *to, size_t n, const char *s) { while (*s) to[n++] = *s++; to[n] = 0; return n; }
static size_t joined(char *to, const char *a, const char *b)
{
    size_t n = 0;
    if (b[0] == 0) return cat(to, 0, a);
    if (b[0] == '/') return cat(to, 0, b);
    n = cat(to, 0, a);
    if (n > 0 && to[n - 1] != '/') to[n++] = '/';
    return cat(to, n, b);
}
static unsigned cwd_case;
char *STUB(getcwd)(char *buf, size_t size)
{
    static const char *dirs[] = { "/", "/w", "/w/x" };
    if (cwd_case >= 3) { errno = cwd_case == 3 ? ENOENT : ERANGE; return NULL; }
    CHECK(buf != NULL && size >= 8, "room for the current directory");
    if (buf == NULL) return NULL;
    cat(buf, 0, dirs[cwd_case]);
    buf[size - 1] = 1;      /* the buffer may be used as a whole */
    return buf;
}
static const char *env[7]; static const char *const names[] = { "HOME", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR" };
static const char *value(const char *name)
{
    for (unsigned i = 0; i < 7; i++) {
        size_t k = 0;
        while (name[k] != 0 && name[k] == names[i][k]) k++;
        if (name[k] == 0 && names[i][k] == 0) return env[i];
    }
    return "unrelated";
}
struct cork_env;
const char *STUB(cork_env_get)(struct cork_env *e, const char *name) { CHECK(e == NULL, "the environment of the process is asked"); return value(name); }
char *STUB(getenv)(const char *name) { return (char *) value(name); }
#ifdef C27
/* one path: copies, base name, directory name, absolute path */
static void one(unsigned k)
{
    char s[8], b[8], d[8], t[MAXP]; size_t n = word(k, s), nb, nd;
    vp_alloc_install();
    struct cork_path *p = k == 0 && in_bool() ? cork_path_new(NULL) : cork_path_new(s), *q;
    is(p, s, n);
    q = cork_path_clone(p); is(q, s, n); is(p, s, n);
    size_t at = n;
    while (at > 0 && s[at - 1] != '/') at--;
    nb = cat(b, 0, s + at);
    nd = 0;
    if (at > 0) for (; nd < (at == 1 ? 1 : at - 1); nd++) d[nd] = s[nd];
    d[nd] = 0;
    struct cork_path *base = cork_path_basename(p), *dir = cork_path_dirname(p), *again;
    is(base, b, nb); is(dir, d, nd); is(p, s, n);
    again = cork_path_join_path(dir, base);
    if (nb > 0) { size_t nt = joined(t, d, b); is(again, t, nt); }
    cork_path_free(again);
    cork_path_set_basename(q); is(q, b, nb);
    cork_path_set(q, s); is(q, s, n);
    cork_path_set_dirname(q); is(q, d, nd);
    cork_path_set(q, NULL); is(q, "", 0);
    cork_path_append(q, s); is(q, s, n);
    cork_path_free(q); cork_path_free(base); cork_path_free(dir);
    cork_path_free(p);
    VP_NO_LEAK();
    WITNESS("case");
}
static void absolute(unsigned k, unsigned c)
{
    static const char *dirs[] = { "/", "/w", "/w/x" };
    char s[8], t[MAXP]; size_t n = word(k, s), nt = 0;
    vp_alloc_install(); cwd_case = c; cork_error_clear();
    struct cork_path *p = cork_path_new(s), *q = cork_path_absolute(p);
    is(p, s, n);
    int rc = cork_path_set_absolute(p);
    if (c >= 3 && s[0] != '/') {
        CHECK(q == NULL && rc == -1 && cork_error_occurred() && (int) cork_error_code() == errno, "an unknown current directory is reported");
        is(p, s, n);
    } else {
        CHECK(rc == 0 && !cork_error_occurred(), "no error");
        nt = s[0] == '/' ? cat(t, 0, s) : joined(t, dirs[c], s);
        if (n > 0) { is(p, t, nt); is(q, t, nt); }
    }
    if (q != NULL) cork_path_free(q);
    cork_error_clear();
    q = cork_path_cwd(); rc = cork_path_set_cwd(p);
    CHECK((q != NULL) == (c < 3) && (rc == 0) == (c < 3) && cork_error_occurred() == (c >= 3), "the current directory, or an error");
    if (c < 3) { nt = cat(t, 0, dirs[c]); is(q, t, nt); is(p, t, nt); cork_path_append(q, "a"); nt = joined(t, dirs[c], "a"); is(q, t, nt); cork_path_free(q); }
    cork_path_free(p);
    VP_NO_LEAK();
    WITNESS("case");
}
static void two(unsigned k, unsigned l)
{
    char a[8], b[8], t[MAXP]; size_t na = word(k, a), nb = word(l, b), nt = joined(t, a, b);
    vp_alloc_install();
    struct cork_path *p = cork_path_new(a), *m = cork_path_new(b), *q = cork_path_join(p, b), *r = cork_path_join_path(p, m);
    is(p, a, na); is(m, b, nb); is(q, t, nt); is(r, t, nt);
    cork_path_free(q); cork_path_free(r);
    q = cork_path_clone(p);
    if (l == 0) { cork_path_append(q, NULL); is(q, a, na); }
    cork_path_append(q, b); is(q, t, nt); cork_path_free(q);
    cork_path_append_path(p, m); is(p, t, nt); is(m, b, nb);
    cork_path_free(p);
    if (k == l) { q = cork_path_join_path(m, m); is(q, t, nt); is(m, b, nb); cork_path_free(q); }
    cork_path_free(m);
    VP_NO_LEAK();
    WITNESS("case");
}
void h_paths(void)
{
    CASES();
    for (unsigned k = 0; k < WORDS; k++) CASE() { one(k); return; }
    for (unsigned k = 0; k < WORDS; k++) for (unsigned l = 0; l < WORDS2; l++) CASE() { two(k, l); return; }
    for (unsigned k = 0; k < WORDS2; k++) for (unsigned c = 0; c < 5; c++) CASE() { absolute(k, c); return; }
    CASES_END();
}
#endif
#ifdef C28
static void list_is(struct cork_path_list *l, const char *s)
{
    unsigned n = 0; size_t i = 0;
    for (;;) {
        char c[8]; size_t k = 0;
        while (s[i] != 0 && s[i] != ':') c[k++] = s[i++];
        c[k] = 0;
        CHECK(n < cork_path_list_size(l), "every component is in the list");
        is(cork_path_list_get(l, n), c, k); n++;
        if (s[i] == 0) break;
        i++;
    }
    CHECK(cork_path_list_size(l) == n, "nothing but the components is in the list");
    const char *str = cork_path_list_to_string(l);
    CHECK(str != NULL, "a list has a string");
    for (i = 0; s[i] != 0; i++) CHECK(str[i] == s[i], "a list prints as its components");
    CHECK(str[i] == 0, "a list prints as its components");
}
/* the k-th string over "a:/" */
static void parse(unsigned k)
{
    char s[8]; size_t n = word(k, s);
    for (size_t i = 0; i < n; i++) s[i] = s[i] == '/' ? ':' : s[i] == '.' ? '/' : s[i];
    vp_alloc_install();
    struct cork_path_list *l = cork_path_list_new(s), *m = cork_path_list_new_empty();
    list_is(l, s);
    CHECK(cork_path_list_size(m) == 0 && cork_path_list_to_string(m) != NULL && cork_path_list_to_string(m)[0] == 0, "an empty list");
    for (size_t i = 0, size = cork_path_list_size(l); i < size; i++) cork_path_list_add(m, cork_path_clone(cork_path_list_get(l, i)));
    list_is(m, s);
    struct cork_file_list *f = cork_file_list_new(l);
    CHECK(cork_file_list_size(f) == cork_path_list_size(l), "a file for every path");
    for (size_t i = 0, size = cork_path_list_size(l); i < size; i++) {
        const struct cork_path *p = cork_file_path(cork_file_list_get(f, i));
        CHECK(cork_path_get(p) != cork_path_get(cork_path_list_get(l, i)), "files own their paths");
        size_t len = 0; while (cork_path_get(cork_path_list_get(l, i))[len]) len++;
        is(p, cork_path_get(cork_path_list_get(l, i)), len);
    }
    cork_path_list_free(l);
    cork_file_list_add(f, cork_file_new("b")); CHECK(cork_file_list_size(f) > 0, "files are added"); is(cork_file_path(cork_file_list_get(f, cork_file_list_size(f) - 1)), "b", 1);
    cork_file_list_free(f); cork_path_list_free(m);
    VP_NO_LEAK();
    WITNESS("case");
}
static void search(unsigned mask, unsigned rel, unsigned fault)
{
    static const char *rels[] = { "x", "/w/x", "y/x", "" }, *dirs[] = { "d", "/e", "f/" };
    static const int at[] = { 1, 0, 1 };
    vfs_init(); vp_alloc_install(); cork_error_clear();
    bool here[3];
    for (unsigned i = 0; i < 3; i++) {
        char name[2] = { "def"[i], 0 };
        /* bit i: the file is there; bit i+3: the directory is missing altogether */
        here[i] = rel == 0 ? (mask >> i & 1) != 0 && i != (mask >> 3) : rel == 1 ? mask & 1 : rel == 2 ? false : i != (mask >> 3);
        if (i == mask >> 3) continue;
        int d = vfs_add(at[i], name, V_DIR, -1);
        if (rel == 0 && here[i]) vfs_add(d, "x", i == 1 ? V_DIR : V_FILE, -1);
        if (rel == 2) vfs_add(d, "y", V_FILE, -1);
    }
    if (rel == 1 && mask & 1) vfs_add(1, "x", V_PIPE, -1);
    struct cork_path_list *l = cork_path_list_new_empty();
    for (unsigned i = 0; i < 3; i++) cork_path_list_add(l, cork_path_new(dirs[i]));
    vfs_errno = EACCES; vfs_fault_at = fault;
    struct cork_file *f = cork_path_list_find_file(l, rels[rel]);
    int first = -1;
    for (unsigned i = 0; i < 3; i++) if (here[i] && first < 0) first = i;
    if (fault > 0 && (first < 0 || (int) fault <= first + 1))
        CHECK(f == NULL && cork_error_code() == EACCES, "a failed search is an error");
    else if (first < 0) CHECK(f == NULL && cork_error_occurred() && cork_error_code() != EACCES, "nothing found is an error");
    else {
        char t[16]; size_t n = joined(t, dirs[first], rels[rel]); bool e = false;
        CHECK(f != NULL && !cork_error_occurred(), "the first one is found");
        is(cork_file_path(f), t, n);
        CHECK(cork_file_exists(f, &e) == 0 && e, "what is found exists");
    }
    if (f != NULL) cork_file_free(f);
    cork_error_clear(); vfs_calls = 0; vfs_faulted = false;
    struct cork_file_list *all = cork_path_list_find_files(l, rels[rel]);
    if (fault > 0) CHECK(all == NULL && cork_error_code() == EACCES, "a failed search is an error");
    else {
        CHECK(all != NULL && !cork_error_occurred(), "all of them are found");
        unsigned n = 0;
        for (unsigned i = 0; i < 3; i++) if (here[i]) {
            char t[16]; size_t len = joined(t, dirs[i], rels[rel]);
            CHECK(n < cork_file_list_size(all), "all of them are found");
            is(cork_file_path(cork_file_list_get(all, n++)), t, len);
        }
        CHECK(n == cork_file_list_size(all), "only what exists is found");
        cork_file_list_free(all);
    }
    cork_path_list_free(l);
    l = cork_path_list_new_empty(); cork_error_clear();
    CHECK(cork_path_list_find_file(l, "x") == NULL && cork_error_occurred(), "nothing is found in an empty list");
    cork_path_list_free(l);
    VP_NO_LEAK();
    WITNESS("case");
}
void h_path_list(void)
{
    CASES();
    for (unsigned k = 0; k < WORDS; k++) CASE() { parse(k); return; }
    CASES_END();
}
void h_path_search(void)
{
    CASES();
    for (unsigned rel = 0; rel < 4; rel++)
        for (unsigned mask = 0; mask < 32; mask += mask % 8 == 7 ? STRIDE : 1)
            for (unsigned fault = 0; fault < 4; fault++) CASE() { search(mask, rel, fault); return; }
    CASES_END();
}
#endif
#ifdef C29
static bool given(const char *v) { return v != NULL && v[0] != 0; }
static void dirs(unsigned f, unsigned h, unsigned x, unsigned d)
{
    static const char *const homes[] = { NULL, "", "/h", "h/", "/" }, *const users[] = { NULL, "", "/u", "a:b" }, *const systems[] = { NULL, "", "/s", "/s:t", ":/s:" };
    vp_alloc_install(); cork_error_clear();
    for (unsigned i = 0; i < 7; i++) env[i] = i % 2 ? "/other" : NULL;
    env[0] = homes[h];
    char t[32]; size_t n = 0; bool none = false;
    if (f < 2) {
        env[1 + 2 * f] = users[x]; env[2 + 2 * f] = systems[d];
        if (given(users[x])) n = cat(t, 0, users[x]);
        else if (given(homes[h])) n = joined(t, homes[h], f == 0 ? ".config" : ".local/share");
        else none = true;
        struct cork_path_list *l = f == 0 ? cork_path_config_paths() : cork_path_data_paths();
        CHECK((l == NULL) == none && cork_error_occurred() == none, "a missing home directory is an error");
        if (!none) {
            CHECK(cork_path_list_size(l) > 0, "the user's directory comes first");
            is(cork_path_list_get(l, 0), t, n);
            const char *s = given(systems[d]) ? systems[d] : f == 0 ? "/etc/xdg" : "/usr/local/share:/usr/share";
            unsigned k = 1; size_t i = 0;
            for (;;) {
                for (n = 0; s[i] != 0 && s[i] != ':'; ) t[n++] = s[i++];
                t[n] = 0;
                CHECK(k < cork_path_list_size(l), "the system's directories follow in order");
                is(cork_path_list_get(l, k++), t, n);
                if (s[i] == 0) break;
                i++;
            }
            CHECK(k == cork_path_list_size(l), "the system's directories follow in order");
            cork_path_list_free(l);
        }
    } else {
        struct cork_path *p;
        if (f == 2) {
            env[5] = users[x];
            if (given(users[x])) n = cat(t, 0, users[x]);
            else if (given(homes[h])) n = joined(t, homes[h], ".cache");
            else none = true;
            p = cork_path_user_cache_path();
        } else if (f == 3) {
            env[6] = users[x];
            if (given(users[x])) n = cat(t, 0, users[x]); else none = true;
            p = cork_path_user_runtime_path();
        } else {
            if (given(homes[h])) n = cat(t, 0, homes[h]); else none = true;
            p = cork_path_home();
        }
        CHECK((p == NULL) == none && cork_error_occurred() == none, "an unknown directory is an error");
        if (!none) { is(p, t, n); cork_path_free(p); }
    }
    VP_NO_LEAK();
    WITNESS("case");
}
void h_standard_dirs(void)
{
    CASES();
    for (unsigned f = 0; f < 2; f++) for (unsigned h = 0; h < 5; h++) for (unsigned x = 0; x < 4; x++) for (unsigned d = 0; d < 5; d++) CASE() { dirs(f, h, x, d); return; }
    for (unsigned f = 2; f < 5; f++) for (unsigned h = 0; h < 5; h++) for (unsigned x = 0; x < 4; x++) CASE() { dirs(f, h, x, 0); return; }
    CASES_END();
}
#endif
