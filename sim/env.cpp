// The seams. This file defines, in the executable, the C library entry points
// through which the product and fcitx reach files, clocks and processes, so
// that the dynamic linker binds them here. Outside of the product, or for paths
// outside the run's scratch directory, every one of them is a plain pass-through.
#include "env.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <set>
#include <stdexcept>

namespace sim {
const char* const kFaultName[FC_N] = {"open", "stat", "mmap", "read", "write", "mkdir", "rename", "sync", "truncate"};
Env env;

void opBegin(const FaultPlan& p) {
  env.plan = p;
  for (int i = 0; i < FC_N; i++) { env.seen[i] = 0; env.firedCls[i] = 0; }
  env.calls = 0;
  env.firedInOp = 0;
  env.edited = false;
  env.crashed = false;
  env.starts.clear();
  env.startDirs.clear();
}
void opEnd() { env.plan = FaultPlan(); env.crashArmed = false; }

int64_t nextMtimeNs() {
  static std::set<int64_t> used;  // no two writes share a modification time
  int64_t t = env.clockNs + (++env.mtimeSeq) * 1000;
  while (!used.insert(t).second) t += 1000;
  return t;
}

static int rawFutimens(int fd, int64_t ns) {
  struct timespec ts[2];
  int64_t s = ns / 1000000000, f = ns % 1000000000;
  if (f < 0) { f += 1000000000; s--; }
  ts[0].tv_sec = ts[1].tv_sec = s;
  ts[0].tv_nsec = ts[1].tv_nsec = f;
  return (int)syscall(SYS_utimensat, fd, nullptr, ts, 0);
}
void stampFd(int fd) { rawFutimens(fd, nextMtimeNs()); }
void stampPath(const std::string& p, int64_t ns) {
  struct timespec ts[2];
  int64_t s = ns / 1000000000, f = ns % 1000000000;
  if (f < 0) { f += 1000000000; s--; }
  ts[0].tv_sec = ts[1].tv_sec = s;
  ts[0].tv_nsec = ts[1].tv_nsec = f;
  syscall(SYS_utimensat, AT_FDCWD, p.c_str(), ts, 0);
}
static int rawStat(const char* p, struct stat* st) { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int64_t mtimeOf(const std::string& p) {
  struct stat st;
  if (rawStat(p.c_str(), &st)) return -1;
  return (int64_t)st.st_mtim.tv_sec * 1000000000 + st.st_mtim.tv_nsec;
}
bool readAll(const std::string& p, std::string* out) {
  out->clear();
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0);
  if (fd < 0) return false;
  char buf[65536];
  bool ok = true;
  for (;;) {
    ssize_t n = syscall(SYS_read, fd, buf, sizeof buf);
    if (n < 0) ok = false;
    if (n <= 0) break;
    out->append(buf, (size_t)n);
  }
  syscall(SYS_close, fd);
  return ok;
}
bool writeAll(const std::string& p, const std::string& data, bool append) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0644);
  if (fd < 0) return false;
  size_t off = 0;
  while (off < data.size()) {
    ssize_t n = syscall(SYS_write, fd, data.data() + off, data.size() - off);
    if (n <= 0) break;
    off += (size_t)n;
  }
  syscall(SYS_close, fd);
  return off == data.size();
}
bool exists(const std::string& p) { struct stat st; return rawStat(p.c_str(), &st) == 0; }
bool isDir(const std::string& p) { struct stat st; return rawStat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
void mkdirs(const std::string& p) {
  for (size_t i = 1; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/') syscall(SYS_mkdirat, AT_FDCWD, p.substr(0, i).c_str(), 0755);
}
void rmrf(const std::string& p) {
  if (env.root.size() < 6 || p.compare(0, env.root.size(), env.root) != 0) return;
  if (p.find("/../") != std::string::npos) return;
  struct stat st;
  if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW)) return;
  if (S_ISDIR(st.st_mode)) {
    OutOfProduct o;
    if (DIR* d = opendir(p.c_str())) {
      std::vector<std::string> names;
      while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
      }
      closedir(d);
      for (auto& n : names) rmrf(p + "/" + n);
    }
    syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), AT_REMOVEDIR);
  } else {
    syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0);
  }
}

// ---- the decision taken at every product system call -----------------------
static bool under(const char* path) {
  return path && !env.root.empty() && strncmp(path, env.root.c_str(), env.root.size()) == 0;
}
static bool fdUnder(int fd) {
  if (fd < 0) return false;
  char link[64], buf[1024];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, buf, sizeof buf - 1);
  if (n <= 0) return false;
  buf[n] = 0;
  return under(buf);
}

int heldFiles() {
  OutOfProduct o;
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.' && fdUnder(atoi(e->d_name))) n++;
    closedir(d);
  }
  std::string maps;
  if (readAll("/proc/self/maps", &maps))
    for (size_t p = 0; (p = maps.find(env.root, p)) != std::string::npos; p++) n++;
  return n;
}

enum Verdict { GO, FAIL, SHORT };

// The simulated process dies here: nothing of the instance runs any more.
[[noreturn]] static void die() {
  env.crashed = true;
  env.crashes++;
  env.inProduct = false;
  siglongjmp(env.crashJmp, 1);
}

// On FAIL errno is set.
static Verdict decide(int cls) {
  env.calls++;
  env.productCalls++;
  int nth = ++env.seen[cls];
  const FaultPlan& p = env.plan;
  if (!p.active) return GO;
  if (p.crashAt && env.calls == p.crashAt && env.crashArmed) die();
  if (p.editAt && env.calls == p.editAt && env.onEdit) { OutOfProduct o; env.onEdit(); }
  if (p.cls == cls && nth >= p.at && nth < p.at + p.count) {
    env.firedInOp++;
    env.firedCls[cls]++;
    env.fired[cls]++;
    if (p.shortLen > 0 && nth == p.at && (cls == FC_WRITE || cls == FC_READ)) { env.shorts++; return SHORT; }
    errno = p.err;
    return FAIL;
  }
  return GO;
}

static void forbid(const char* what) {
  if (env.inProduct) { env.forbidden = true; env.forbiddenWhat = what; }
}
}  // namespace sim

using namespace sim;

template <class F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

extern "C" {

int openat(int dirfd, const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (env.inProduct && under(path) && decide(FC_OPEN) == FAIL) return -1;
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && env.inProduct && under(path) && (flags & O_TRUNC)) stampFd(fd);
  return fd;
}
int openat64(int dirfd, const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  return openat(dirfd, path, flags, mode);
}
int open(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  return openat(AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  return openat(AT_FDCWD, path, flags, mode);
}
int creat(const char* path, mode_t mode) { return openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

FILE* fopen(const char* path, const char* mode) {
  static auto real = next<FILE* (*)(const char*, const char*)>("fopen");
  bool mine = env.inProduct && under(path);
  if (mine && decide(FC_OPEN) == FAIL) return nullptr;
  bool existed = mine && exists(path);
  FILE* f;
  { OutOfProduct o; f = real(path, mode); }
  if (f && mine && (strchr(mode, 'w') || (strchr(mode, 'a') && !existed))) stampFd(fileno(f));
  return f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }

size_t fread(void* buf, size_t size, size_t n, FILE* f) {
  static auto real = next<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
  if (env.inProduct && fdUnder(fileno(f))) {
    Verdict v = decide(FC_READ);
    if (v == FAIL) return 0;
    if (v == SHORT) {
      size_t total = size * n, want = (size_t)env.plan.shortLen;
      if (want > total) want = total;
      OutOfProduct o;
      size_t got = real(buf, 1, want, f);
      return size ? got / size : 0;
    }
  }
  OutOfProduct o;
  return real(buf, size, n, f);
}

ssize_t read(int fd, void* buf, size_t n) {
  if (env.inProduct && fdUnder(fd)) {
    Verdict v = decide(FC_READ);
    if (v == FAIL) return -1;
    if (v == SHORT && (size_t)env.plan.shortLen < n) n = (size_t)env.plan.shortLen > 0 ? (size_t)env.plan.shortLen : 1;
  }
  return syscall(SYS_read, fd, buf, n);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off) {
  if (env.inProduct && fdUnder(fd) && decide(FC_READ) == FAIL) return -1;
  return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread64(int fd, void* buf, size_t n, off_t off) { return pread(fd, buf, n, off); }

ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  if (!(env.inProduct && fdUnder(fd))) return syscall(SYS_writev, fd, iov, cnt);
  std::string all;
  for (int i = 0; i < cnt; i++) all.append((const char*)iov[i].iov_base, iov[i].iov_len);
  Verdict v = decide(FC_WRITE);
  if (v == FAIL) return -1;
  size_t n = all.size();
  if (v == SHORT && (size_t)env.plan.shortLen < n) n = (size_t)env.plan.shortLen;
  ssize_t r = syscall(SYS_write, fd, all.data(), n);
  if (r > 0) stampFd(fd);
  return r;
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (!(env.inProduct && fdUnder(fd))) return syscall(SYS_write, fd, buf, n);
  struct iovec v = {const_cast<void*>(buf), n};
  return writev(fd, &v, 1);
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off) {
  bool mine = env.inProduct && fdUnder(fd);
  if (mine && decide(FC_WRITE) == FAIL) return -1;
  ssize_t r = syscall(SYS_pwrite64, fd, buf, n, off);
  if (mine && r > 0) stampFd(fd);
  return r;
}
size_t fwrite(const void* buf, size_t size, size_t n, FILE* f) {
  static auto real = next<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
  if (env.inProduct && fdUnder(fileno(f))) {
    ssize_t done = write(fileno(f), buf, size * n);  // unbuffered: the seam sees it
    return done < 0 ? 0 : (size ? (size_t)done / size : 0);
  }
  return real(buf, size, n, f);
}
int fputs(const char* s, FILE* f) {
  static auto real = next<int (*)(const char*, FILE*)>("fputs");
  if (env.inProduct && fdUnder(fileno(f))) return write(fileno(f), s, strlen(s)) < 0 ? EOF : 1;
  return real(s, f);
}

void* mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (env.inProduct && fd >= 0 && fdUnder(fd) && decide(FC_MMAP) == FAIL) return MAP_FAILED;
  long r = syscall(SYS_mmap, a, len, prot, flags, fd, off);
  return (void*)r;
}
void* mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return mmap(a, len, prot, flags, fd, off); }

int stat(const char* path, struct stat* st) {
  if (env.inProduct && under(path) && decide(FC_STAT) == FAIL) return -1;
  return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
int stat64(const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
int lstat(const char* path, struct stat* st) {
  if (env.inProduct && under(path) && decide(FC_STAT) == FAIL) return -1;
  return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW);
}
int lstat64(const char* path, struct stat64* st) { return lstat(path, (struct stat*)st); }
int fstat(int fd, struct stat* st) {
  if (env.inProduct && fdUnder(fd) && decide(FC_STAT) == FAIL) return -1;
  return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int fstatat(int d, const char* path, struct stat* st, int fl) {
  if (env.inProduct && under(path) && decide(FC_STAT) == FAIL) return -1;
  return (int)syscall(SYS_newfstatat, d, path, st, fl);
}
int access(const char* path, int mode) {
  if (env.inProduct && under(path) && decide(FC_STAT) == FAIL) return -1;
  return (int)syscall(SYS_faccessat, AT_FDCWD, path, mode);
}
int mkdir(const char* path, mode_t mode) {
  if (env.inProduct && under(path) && decide(FC_MKDIR) == FAIL) return -1;
  return (int)syscall(SYS_mkdirat, AT_FDCWD, path, mode);
}
int rename(const char* a, const char* b) {
  if (env.inProduct && under(b) && decide(FC_RENAME) == FAIL) return -1;
  return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}
int fsync(int fd) {
  if (env.inProduct && fdUnder(fd)) { if (decide(FC_SYNC) == FAIL) return -1; return 0; }
  return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t len) {
  bool mine = env.inProduct && fdUnder(fd);
  if (mine && decide(FC_TRUNC) == FAIL) return -1;
  int r = (int)syscall(SYS_ftruncate, fd, len);
  if (mine && r == 0) stampFd(fd);
  return r;
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
int truncate(const char* path, off_t len) {
  bool mine = env.inProduct && under(path);
  if (mine && decide(FC_TRUNC) == FAIL) return -1;
  int r = (int)syscall(SYS_truncate, path, len);
  if (mine && r == 0) stampPath(path, nextMtimeNs());
  return r;
}
int truncate64(const char* path, off_t len) { return truncate(path, len); }
int unlinkat(int d, const char* path, int fl) {
  if (env.inProduct) {
    if (!under(path)) { forbid("unlinkat outside the scratch directory"); errno = EPERM; return -1; }
    if (decide(FC_RENAME) == FAIL) return -1;
  }
  return (int)syscall(SYS_unlinkat, d, path, fl);
}
int unlink(const char* path) { return unlinkat(AT_FDCWD, path, 0); }
int rmdir(const char* path) { return unlinkat(AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char* path) {
  int r = unlinkat(AT_FDCWD, path, 0);
  if (r && errno == EISDIR) r = unlinkat(AT_FDCWD, path, AT_REMOVEDIR);
  return r;
}
int mkstemp(char* tmpl) {
  if (!env.inProduct) { static auto real = next<int (*)(char*)>("mkstemp"); return real(tmpl); }
  // deterministic names
  static unsigned counter = 0;
  size_t n = strlen(tmpl);
  if (n < 6) { errno = EINVAL; return -1; }
  if (under(tmpl) && decide(FC_OPEN) == FAIL) return -1;
  for (int tries = 0; tries < 1000; tries++) {
    char suf[7];
    snprintf(suf, sizeof suf, "%06u", ++counter % 1000000);
    memcpy(tmpl + n - 6, suf, 6);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, tmpl, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
int mkstemp64(char* t) { return mkstemp(t); }

// ---- clocks ----------------------------------------------------------------
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (env.inProduct) {
    int64_t ns = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? env.clockNs : env.monoNs;
    ts->tv_sec = ns / 1000000000;
    ts->tv_nsec = ns % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval* tv, void* tz) {
  (void)tz;
  if (env.inProduct) {
    tv->tv_sec = env.clockNs / 1000000000;
    tv->tv_usec = (env.clockNs % 1000000000) / 1000;
    return 0;
  }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

// ---- processes: nothing may be started for real -----------------------------
pid_t fork() {
  if (env.inProduct) { forbid("fork"); errno = EAGAIN; return -1; }
  static auto real = next<pid_t (*)()>("fork");
  return real();
}
pid_t vfork() { return fork(); }
int execvp(const char* f, char* const a[]) {
  if (env.inProduct) { forbid("execvp"); errno = ENOENT; return -1; }
  static auto real = next<int (*)(const char*, char* const*)>("execvp");
  return real(f, a);
}
int execv(const char* f, char* const a[]) {
  if (env.inProduct) { forbid("execv"); errno = ENOENT; return -1; }
  static auto real = next<int (*)(const char*, char* const*)>("execv");
  return real(f, a);
}
int system(const char* c) {
  if (env.inProduct) { forbid("system"); return -1; }
  static auto real = next<int (*)(const char*)>("system");
  return real(c);
}
FILE* popen(const char* c, const char* m) {
  if (env.inProduct) { forbid("popen"); errno = EAGAIN; return nullptr; }
  static auto real = next<FILE* (*)(const char*, const char*)>("popen");
  return real(c, m);
}
int posix_spawn(pid_t*, const char*, const void*, const void*, char* const*, char* const*) { forbid("posix_spawn"); return EAGAIN; }
int posix_spawnp(pid_t*, const char*, const void*, const void*, char* const*, char* const*) { forbid("posix_spawnp"); return EAGAIN; }
}

namespace fcitx {
// The real one forks and executes; here the request is recorded.
void startProcess(const std::vector<std::string>& args, const std::string& workingDirectory) {
  env.starts.push_back(args);
  env.startDirs.push_back(workingDirectory);
}
}  // namespace fcitx
