/* A file system of a handful of nodes behind the system calls libcork makes,
 * one of which (vfs_fault_at) fails with vfs_errno. */
#ifndef VFS_H
#define VFS_H
#include "vp.h"
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#define VMAX 8
enum { V_NONE, V_DIR, V_FILE, V_LINK, V_PIPE };
static struct { int8_t parent, target; uint8_t type; char name[3]; uint16_t mode; } V[VMAX];   /* 0 is "/", 1 is "/w", the current directory */
static int nv; static unsigned vfs_calls, vfs_fault_at, vfs_writes; static int vfs_errno; static bool vfs_faulted;
static struct { int node, pos; bool open; } vfs_dirs[4]; static int vfs_ndirs, vfs_open;
static struct { uint64_t ino, off; uint16_t len; uint8_t type; char name[13]; } vfs_entry;

static int vfs_add(int parent, const char *name, int type, int target)
{
    V[nv].parent = parent; V[nv].type = type; V[nv].target = target; V[nv].mode = 0;
    V[nv].name[0] = V[nv].name[1] = V[nv].name[2] = 0;
    for (int i = 0; i < 2 && name[i]; i++) V[nv].name[i] = name[i];
    return nv++;
}
static void vfs_init(void)
{
    nv = 0; vfs_calls = vfs_writes = 0; vfs_fault_at = 0; vfs_errno = 0; vfs_faulted = false; vfs_ndirs = vfs_open = 0;
    vfs_add(0, "", V_DIR, -1); vfs_add(0, "w", V_DIR, -1);
}
static bool vfs_fails(void)
{
    if (++vfs_calls == vfs_fault_at) { errno = vfs_errno; vfs_faulted = true; return true; }
    errno = 77;     /* system calls that succeed may leave anything in errno */
    return false;
}
/* the node of a path, or -1 with errno; where a new entry would go */
static int vfs_at; static char vfs_last[3];
static int vfs_find(const char *p, bool follow)
{
    int at = p[0] == '/' ? 0 : 1; size_t i = 0;
    vfs_at = -1; vfs_last[0] = 0;
    if (p[0] == 0) { errno = ENOENT; return -1; }
    for (;;) {
        while (p[i] == '/') i++;
        if (p[i] == 0) { vfs_at = -1; return at; }
        if (V[at].type != V_DIR) { errno = ENOTDIR; vfs_at = -1; return -1; }
        size_t k = i; int to = -1;
        while (p[k] != 0 && p[k] != '/') k++;
        CHECK(k - i <= 2, "path names are made of the names given");
        if (k - i == 1 && p[i] == '.') to = at;
        else if (k - i == 2 && p[i] == '.' && p[i + 1] == '.') to = V[at].parent;
        else for (int n = 1; n < nv; n++)
            if (V[n].type != V_NONE && V[n].parent == at && V[n].name[0] == p[i] && V[n].name[1] == (k - i == 2 ? p[i + 1] : 0)) to = n;
        bool last = true;
        for (size_t j = k; p[j] != 0; j++) if (p[j] != '/') last = false;
        if (to < 0) {
            errno = ENOENT;
            if (last) { vfs_at = at; vfs_last[0] = p[i]; vfs_last[1] = k - i == 2 ? p[i + 1] : 0; }
            return -1;
        }
        if (V[to].type == V_LINK && (follow || p[k] != 0)) {
            to = V[to].target;
            if (to < 0 || V[to].type == V_NONE) { errno = ENOENT; return -1; }
        }
        if (p[k] != 0 && V[to].type != V_DIR) { errno = ENOTDIR; return -1; }
        at = to; i = k;
    }
}
static int vfs_stat(const char *p, struct stat *st, bool follow)
{
    if (vfs_fails()) return -1;
    int n = vfs_find(p, follow);
    if (n < 0) return -1;
    st->st_mode = (V[n].type == V_DIR ? S_IFDIR : V[n].type == V_FILE ? S_IFREG : V[n].type == V_LINK ? S_IFLNK : S_IFIFO) | 0644;
    return 0;
}
int STUB(stat)(const char *p, struct stat *st) { return vfs_stat(p, st, true); }
int STUB(lstat)(const char *p, struct stat *st) { return vfs_stat(p, st, false); }
int STUB(mkdir)(const char *p, mode_t mode)
{
    if (vfs_fails()) return -1;
    if (vfs_find(p, false) >= 0) { errno = EEXIST; return -1; }
    if (vfs_at < 0) { return -1; }
    CHECK(nv < VMAX, "only the directories of the path are created");
    char name[3] = { vfs_last[0], vfs_last[1], 0 };
    int n = vfs_add(vfs_at, name, V_DIR, -1);
    V[n].mode = mode; vfs_writes++;
    return 0;
}
static bool vfs_empty(int n) { for (int i = 1; i < nv; i++) if (V[i].type != V_NONE && V[i].parent == n) return false; return true; }
int STUB(rmdir)(const char *p)
{
    if (vfs_fails()) return -1;
    int n = vfs_find(p, false);
    if (n < 0) return -1;
    if (V[n].type != V_DIR) { errno = ENOTDIR; return -1; }
    if (n < 2) { errno = EBUSY; return -1; }
    if (!vfs_empty(n)) { errno = ENOTEMPTY; return -1; }
    V[n].type = V_NONE; vfs_writes++;
    return 0;
}
int STUB(unlink)(const char *p)
{
    if (vfs_fails()) return -1;
    int n = vfs_find(p, false);
    if (n < 0) return -1;
    if (V[n].type == V_DIR) { errno = EISDIR; return -1; }
    V[n].type = V_NONE; vfs_writes++;
    return 0;
}
DIR *STUB(opendir)(const char *p)
{
    if (vfs_fails()) return NULL;
    int n = vfs_find(p, true);
    if (n < 0) return NULL;
    if (V[n].type != V_DIR) { errno = ENOTDIR; return NULL; }
    CHECK(vfs_ndirs < 4, "directories are opened once");
    vfs_dirs[vfs_ndirs].node = n; vfs_dirs[vfs_ndirs].pos = -2; vfs_dirs[vfs_ndirs].open = true; vfs_open++;
    return (DIR *) &vfs_dirs[vfs_ndirs++];
}
static int vfs_dir(DIR *d)
{
    for (int i = 0; i < 4; i++) if (d == (DIR *) &vfs_dirs[i]) { CHECK(vfs_dirs[i].open, "a closed directory is not used"); return i; }
    CHECK(0, "directories are used as they were opened"); return 0;
}
struct dirent *STUB(readdir)(DIR *d)
{
    int h = vfs_dir(d), old = errno;
    if (vfs_fails()) return NULL;
    errno = old;
    int pos = vfs_dirs[h].pos, n = vfs_dirs[h].node;
    while (pos >= 0 && pos < nv && (pos == 0 || V[pos].type == V_NONE || V[pos].parent != n)) pos++;
    if (pos >= nv) return NULL;
    char *to = ((struct dirent *) &vfs_entry)->d_name;
    to[0] = pos < 0 ? '.' : V[pos].name[0]; to[1] = pos == -1 ? '.' : pos < 0 ? 0 : V[pos].name[1]; to[2] = 0;
    vfs_dirs[h].pos = pos + 1;
    return (struct dirent *) &vfs_entry;
}
int STUB(closedir)(DIR *d)
{
    int h = vfs_dir(d);
    vfs_dirs[h].open = false; vfs_open--;
    return vfs_fails() ? -1 : 0;
}
#endif
