/* Monitor of external constants (C08): every system call is wrapped and may fail. */
#define MON_ALLOC 1
#include "mon.h"
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <sys/stat.h>
bool omLoadConstantData(void **constAddr, char *fname, int64_t size, int64_t isLE);
void omGetExternalConstantAddr(void **outputAddr, void **baseAddr, int64_t offset);
bool omUnloadConstantData(void **constAddr, int64_t size);
int __real_open(const char *, int, ...); int __real_close(int); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_fstat(int, struct stat *); ssize_t __real_read(int, void *, size_t); int __real_posix_memalign(void **, size_t, size_t);
static int on = 0;                       /* inside the code under test */
static long calls, fail_at = -1; static int failed;
static int fds[1100], nfds, opens; static struct { char *p; size_t n; } maps[64]; static int nmaps;
static int trip(int e) { if (!on) return 0; if (++calls == fail_at) { failed = 1; errno = e; return 1; } return 0; }
int __wrap_open(const char *p, int fl, ...) {
  if (!on) return __real_open(p, fl, 0600);
  CHECK((fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)), "constant file not opened for reading");
  ++opens;
  if (trip(EMFILE)) return -1;
  int fd = __real_open(p, fl);
  if (fd >= 0) { CHECK(fd < 1100, "descriptors run out"); fds[fd] = 1; ++nfds; }
  return fd;
}
int __wrap_close(int fd) {
  if (on) { CHECK(fd >= 0 && fd < 1100 && fds[fd], "close of descriptor %d, which is not open", fd); fds[fd] = 0; --nfds; }
  return __real_close(fd);
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (!on) return __real_mmap(a, n, pr, fl, fd, o);
  if (trip(ENOMEM)) return MAP_FAILED;
  void *p = __real_mmap(a, n, pr, fl, fd, o);
  if (p != MAP_FAILED) { maps[nmaps].p = p; maps[nmaps++].n = n; }
  return p;
}
int __wrap_munmap(void *p, size_t n) {
  if (on) {
    int k; for (k = 0; k < nmaps && maps[k].p != p; ++k) ;
    CHECK(k < nmaps, "munmap of a block that is not mapped");
    CHECK((maps[k].n + 4095) / 4096 == (n + 4095) / 4096, "munmap of %zu bytes, %zu are mapped", n, maps[k].n);
    maps[k] = maps[--nmaps];
  }
  return __real_munmap(p, n);
}
int __wrap_fstat(int fd, struct stat *s) { if (trip(EIO)) return -1; return __real_fstat(fd, s); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!on) return __real_read(fd, b, n);
  if (trip(EIO)) return -1;
  if (n > 1 && n < 100000 && rnd() % 2) n = (size_t)rndr(1, (int64_t)n);
  return __real_read(fd, b, n);
}
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
  if (!on) return __real_posix_memalign(p, a, n);
  if (trip(ENOMEM)) return ENOMEM;
  int r = __real_posix_memalign(p, a, n);
  if (!r) { memset(*p, 0xA5, n < 100000 ? n : 100000); mon_b[mon_nb].p = (char *)*p; mon_b[mon_nb].n = n < 100000 ? n : 100000; mon_b[mon_nb].live = 1; ++mon_nb; }
  return r;
}
#ifdef __MVS__
static int held(void) { return mon_live(); }
#else
static int held(void) { return nmaps; }
#endif
#define NF 4
static char dir[200], *fn[NF]; static unsigned char *data[NF]; static int64_t len[NF]; /* len < 0: there is no such file */
static void path_of(char *o, int k) { sprintf(o, "%s/%s", dir, fn[k]); }
static void history(void) {
  static const char *odd[] = {"model.constants.bin", "a", "name with %s and %n", "m.bin", "\xc3\xa9t\xc3\xa9.bin", "x,y", "-o", "very-long-name-very-long-name-very-long-name-very-long-name-very-long-name-very-long-name.constants.bin"};
  char p[500]; int used[8] = {0};
  static const char *dirs[] = {"d", "%d", "long-directory-name-long-directory-name-long-directory-name", "d/e"};
  int rel = rnd() % 3 == 0; char cwd[150]; CHECK(getcwd(cwd, 150), "cwd");
  { char top[200]; snprintf(top, 200, "%s/c", cwd); mkdir(top, 0700); snprintf(dir, 200, "%s/%s", top, dirs[rnd() % 4]); char *e = strstr(dir, "d/e"); if (e) { e[1] = 0; mkdir(dir, 0700); e[1] = '/'; } mkdir(dir, 0700); }
  for (int k = 0; k < NF; ++k) {
    int j; do j = rnd() % 8; while (used[j]); used[j] = 1; fn[k] = (char *)odd[j];
    len[k] = rnd() % 5 == 0 ? -1 : rnd() % 3 ? rndr(0, 40) : rndr(1, 3) * 4096 + rndr(-2, 2);
    data[k] = 0; path_of(p, k); unlink(p);
    if (len[k] >= 0) { data[k] = (unsigned char *)calloc(1, len[k] + 1); for (int i = 0; i < len[k]; ++i) data[k][i] = (unsigned char)rnd(); FILE *f = fopen(p, "wb"); CHECK(f, "scratch file"); fwrite(data[k], 1, len[k], f); fclose(f); }
  }
  (void)rel;
  void *base[NF] = {0}; int64_t sz[NF] = {0};
  int n = (int)rndr(1, 8);
  for (int s = 0; s < n; ++s) {
    int k = rnd() % NF, what = rnd() % 10;
    if (what < 6) {
      int usedir = rnd() % 3 != 0; char nm[500];
      if (usedir) { setenv("OM_CONSTANT_PATH", dir, 1); strcpy(nm, fn[k]); } else { unsetenv("OM_CONSTANT_PATH"); path_of(nm, k); }
      int64_t size = len[k] < 0 ? rndr(1, 50) : rnd() % 4 == 0 ? rndr(0, len[k] + 5) : rnd() % 6 == 0 ? len[k] + rndr(1, 9000) : len[k];
      int le = rnd() % 8 != 0;
      int nul = rnd() % 20 == 0;
      calls = 0; failed = 0; fail_at = rnd() % 3 == 0 ? rndr(1, 4) : -1;
      if (rnd() % 3 == 0) mon_fail_at = mon_allocs + rndr(1, 2);
      CUR("step %d of %d: load %s of %lld bytes, size %lld, %s-endian, through %s, pointer %s, system call %ld fails, allocation %ld fails", s, n, fn[k], (long long)len[k], (long long)size, le ? "little" : "big", usedir ? "OM_CONSTANT_PATH" : "its path", nul ? "missing" : base[k] ? "set" : "unset", fail_at, mon_fail_at < 0 ? -1 : mon_fail_at - mon_allocs);
      int h0 = held(), o0 = opens, b0 = mon_live(); long a0 = mon_allocs; void *was = base[k];
      on = 1; bool r = omLoadConstantData(nul ? 0 : &base[k], nm, size, le); on = 0;
      int af = mon_fail_at > 0 && mon_allocs >= mon_fail_at && a0 < mon_fail_at; mon_fail_at = -1;
      CHECK(nfds == 0, "a descriptor was left open");
      if (nul || size <= 0) { CHECK(!r, "reported success"); CHECK(held() == h0 && base[k] == was, "changed something"); continue; }
      if (was) { CHECK(r && base[k] == was && held() == h0 && opens == o0, "a second load did it again or failed"); continue; }
      int want = le && len[k] >= size && !failed && !af;
      CHECK(r == want, "load reported %s", r ? "success" : "failure");
      if (!r) { CHECK(!base[k], "load failed but left a pointer behind"); CHECK(held() == h0 && mon_live() == b0, "load failed and kept memory"); continue; }
      CHECK(base[k], "load succeeded without a pointer"); CHECK(held() == h0 + 1, "load keeps %d blocks instead of 1", held() - h0);
#ifdef __MVS__
      CHECK(mon_live() == b0 + 1, "load keeps other memory");
      CHECK(((uintptr_t)base[k] & 4095) == 0, "constants not page aligned");
#else
      CHECK(mon_live() == b0, "load keeps other memory");
#endif
      CHECK(!memcmp(base[k], data[k], size), "the constants are not the bytes of the file");
      sz[k] = size;
    } else if (what < 8) {
      int64_t off = rndr(0, 5000); void *out = rnd() % 3 == 0 ? (void *)dir : 0, *o0 = out; int nb = rnd() % 12 == 0; if (!base[k] && !o0 && !nb) { if (rnd() % 2) nb = 1; else continue; } int no = rnd() % 12 == 0;
      CUR("step %d of %d: address at offset %lld of a %s pointer, %s", s, n, (long long)off, base[k] ? "set" : "unset", o0 ? "already known" : "not known");
      on = 1; omGetExternalConstantAddr(no ? 0 : &out, nb ? 0 : &base[k], off); on = 0;
      if (no || nb || o0) CHECK(out == o0, "address changed");
      else CHECK((char *)out == (char *)base[k] + off, "address is not base plus offset");
    } else {
      CUR("step %d of %d: unload %s, pointer %s", s, n, fn[k], base[k] ? "set" : "unset");
      int h0 = held(); void *was = base[k];
      on = 1; bool r = omUnloadConstantData(rnd() % 12 == 0 && !was ? 0 : &base[k], sz[k]); on = 0;
      CHECK(r == (was != 0), "unload reported %d", r);
      CHECK(held() == h0 - (was != 0), "unload released %d blocks", h0 - held());
      CHECK(!base[k], "unload left the pointer on released memory");
    }
  }
  for (int k = 0; k < NF; ++k) {
    if (base[k]) { CHECK(!memcmp(base[k], data[k], sz[k]), "loaded constants changed"); on = 1; omUnloadConstantData(&base[k], sz[k]); on = 0; }
    path_of(p, k); unlink(p); free(data[k]);
  }
  CHECK(held() == 0, "memory kept after every unload");
  mon_reset(); nmaps = 0; rmdir(dir);
}
static void big(void) { /* more than one chunk of 1 GB, sparse */
  const int64_t G = 1024LL * 1024 * 1024, n = G + 12345; int64_t at[] = {0, 4095, G - 1, G, G + 1, n - 1};
  char nm[] = "big.bin"; unsetenv("OM_CONSTANT_PATH");
  FILE *f = fopen(nm, "wb"); CHECK(f, "scratch file"); for (int i = 0; i < 6; ++i) { fseeko(f, at[i], SEEK_SET); fputc(i + 1, f); } fclose(f);
  CUR("load a file of 1 GB and 12345 bytes");
  void *b = 0; fail_at = -1; on = 1; bool r = omLoadConstantData(&b, nm, n, 1); on = 0;
  if (!r) { printf("NOTE the large file could not be loaded\n"); unlink(nm); return; }
  for (int i = 0; i < 6; ++i) CHECK(((char *)b)[at[i]] == i + 1, "byte %lld of the file is wrong", (long long)at[i]);
  CHECK(((char *)b)[2 * 4096 + 7] == 0 && ((char *)b)[G + 77] == 0, "bytes between are wrong");
  on = 1; omUnloadConstantData(&b, n); on = 0; mon_reset(); nmaps = 0; unlink(nm);
}
int main(int argc, char **argv) {
  mon_init(argc, argv); char scr[60]; sprintf(scr, "s%d", (int)getpid()); mkdir(scr, 0700); if (chdir(scr)) return 9;
  stderr = fopen("/dev/null", "w"); /* the messages of the code; descriptor 2 stays */
  long n = mon_arg(argc, argv, "n", 500);
  for (long c = 0; c < n; ++c) history();
  if (mon_part == 0) big();
  return mon_done();
}
