// In-memory file system behind the libc calls libstdc++ makes, with fault injection. Only paths below the virtual
// roots exist in it; everything else goes to the real libc.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include "rt.h"

namespace {
std::map<std::string, std::string>* files;
std::set<std::string>* dirs;
std::vector<rt::FsFault>* faults_;
std::map<std::string, uint64_t>* counts;
std::map<std::string, uint64_t>* reads;
bool von = false;

struct VFd
{
    bool used = false;
    bool log = false;
    std::string* path = nullptr;
    bool dir = false;
};
constexpr int MAXFD = 1024;
VFd vfd[MAXFD];

template<typename F>
F real(const char* n)
{
    return (F)dlsym(RTLD_NEXT, n);
}

bool is_virtual(const char* p)
{
    if (!von || !p)
        return false;
    return strncmp(p, "/ws", 3) == 0 || strncmp(p, "/ext", 4) == 0 || strncmp(p, "/home/", 6) == 0;
}
bool is_log(const char* p) { return von && p && strstr(p, "hlasmplugin.log"); }

std::string norm(const char* p)
{
    // collapse // and trailing /
    std::string r;
    for (const char* c = p; *c; ++c)
    {
        if (*c == '/' && !r.empty() && r.back() == '/')
            continue;
        r.push_back(*c);
    }
    // resolve . and ..
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < r.size())
    {
        size_t e = r.find('/', i);
        if (e == std::string::npos)
            e = r.size();
        std::string s = r.substr(i, e - i);
        if (s == "..")
        {
            if (!parts.empty())
                parts.pop_back();
        }
        else if (!s.empty() && s != ".")
            parts.push_back(s);
        i = e + 1;
    }
    std::string o;
    for (auto& s : parts)
        o += "/" + s;
    return o.empty() ? "/" : o;
}

int fault(const char* op, const std::string& path)
{
    if (!counts)
        return 0;
    ++(*counts)[op];
    if (rt::active())
        rt::point(rt::Point::sync);
    for (auto& f : *faults_)
    {
        if (!f.enabled || f.op != op || (!f.path.empty() && path.find(f.path) == std::string::npos))
            continue;
        uint64_t i = f.seen++;
        if (i >= f.from && i < f.from + f.count)
        {
            ++f.fired;
            return f.err ? f.err : EIO;
        }
    }
    return 0;
}

// how many bytes can be read at the offset before a defect of the medium; 0 = none, sets errno
size_t readable(const std::string& path, uint64_t off, size_t n)
{
    for (auto& f : *faults_)
    {
        if (!f.enabled || f.op != "tear" || (!f.path.empty() && path.find(f.path) == std::string::npos))
            continue;
        if (off < f.at)
            n = std::min<uint64_t>(n, f.at - off);
        else
        {
            ++f.fired;
            errno = f.err ? f.err : EIO;
            return 0;
        }
    }
    return n;
}

int make_fd(const std::string& content)
{
    int fd = memfd_create("vfs", MFD_CLOEXEC);
    if (fd < 0)
        return -1;
    static auto rw = real<ssize_t (*)(int, const void*, size_t)>("write");
    static auto rl = real<off64_t (*)(int, off64_t, int)>("lseek64");
    size_t off = 0;
    while (off < content.size())
    {
        ssize_t n = rw(fd, content.data() + off, content.size() - off);
        if (n <= 0)
            break;
        off += (size_t)n;
    }
    rl(fd, 0, SEEK_SET);
    return fd;
}

void reg(int fd, const std::string& path, bool dir, bool log)
{
    if (fd < 0 || fd >= MAXFD)
        return;
    delete vfd[fd].path;
    vfd[fd].used = true;
    vfd[fd].path = new std::string(path);
    vfd[fd].dir = dir;
    vfd[fd].log = log;
}
void unreg(int fd)
{
    if (fd < 0 || fd >= MAXFD || !vfd[fd].used)
        return;
    vfd[fd].used = false;
}

bool dir_exists(const std::string& p) { return p == "/" || dirs->count(p) > 0; }

int do_open(const char* p)
{
    std::string path = norm(p);
    if (int e = fault("open", path))
    {
        errno = e;
        return -1;
    }
    auto it = files->find(path);
    if (it == files->end())
    {
        if (dir_exists(path))
        {
            int fd = make_fd("");
            reg(fd, path, true, false);
            return fd;
        }
        errno = ENOENT;
        return -1;
    }
    ++(*reads)[path];
    int fd = make_fd(it->second);
    reg(fd, path, false, false);
    return fd;
}

struct VDir
{
    uint64_t magic;
    std::vector<std::pair<std::string, bool>> entries;
    size_t pos = 0;
    int fd = -1;
    std::string path;
    dirent de;
};
constexpr uint64_t VMAGIC = 0x5644495256444952ull;
std::set<void*>* vdirs;

VDir* make_dir(const std::string& path, int fd)
{
    auto* d = new VDir;
    d->magic = VMAGIC;
    d->fd = fd;
    d->path = path;
    std::string pre = path == "/" ? "/" : path + "/";
    std::map<std::string, bool> names;
    for (auto& f : *files)
        if (f.first.compare(0, pre.size(), pre) == 0)
        {
            std::string rest = f.first.substr(pre.size());
            size_t sl = rest.find('/');
            if (sl == std::string::npos)
                names[rest] = false;
        }
    for (auto& f : *dirs)
        if (f.compare(0, pre.size(), pre) == 0 && f.size() > pre.size())
        {
            std::string rest = f.substr(pre.size());
            if (rest.find('/') == std::string::npos)
                names[rest] = true;
        }
    d->entries.push_back({ ".", true });
    d->entries.push_back({ "..", true });
    for (auto& n : names)
        d->entries.push_back(n);
    vdirs->insert(d);
    return d;
}

int do_stat(const char* p, struct stat* sb)
{
    std::string path = norm(p);
    if (int e = fault("stat", path))
    {
        errno = e;
        return -1;
    }
    memset(sb, 0, sizeof *sb);
    auto it = files->find(path);
    if (it != files->end())
    {
        sb->st_mode = S_IFREG | 0644;
        sb->st_size = (off_t)it->second.size();
        sb->st_nlink = 1;
        return 0;
    }
    if (dir_exists(path))
    {
        sb->st_mode = S_IFDIR | 0755;
        sb->st_nlink = 2;
        return 0;
    }
    errno = ENOENT;
    return -1;
}
} // namespace

namespace rt::fs {
void clear()
{
    if (!files)
    {
        files = new std::map<std::string, std::string>;
        dirs = new std::set<std::string>;
        faults_ = new std::vector<FsFault>;
        counts = new std::map<std::string, uint64_t>;
        reads = new std::map<std::string, uint64_t>;
        vdirs = new std::set<void*>;
    }
    files->clear();
    dirs->clear();
    faults_->clear();
    counts->clear();
    reads->clear();
}
void mkdir(const std::string& path)
{
    std::string p = norm(path.c_str());
    while (p.size() > 1)
    {
        dirs->insert(p);
        p.resize(p.rfind('/'));
        if (p.empty())
            break;
    }
}
const std::map<std::string, std::string>& all() { return *files; }
void put(const std::string& path, const std::string& content)
{
    std::string p = norm(path.c_str());
    (*files)[p] = content;
    size_t s = p.rfind('/');
    if (s > 0)
        mkdir(p.substr(0, s));
}
bool remove(const std::string& path)
{
    std::string p = norm(path.c_str());
    bool any = files->erase(p) > 0;
    // a directory: remove everything below it
    std::string pre = p + "/";
    for (auto it = files->begin(); it != files->end();)
        if (it->first.compare(0, pre.size(), pre) == 0)
        {
            it = files->erase(it);
            any = true;
        }
        else
            ++it;
    for (auto it = dirs->begin(); it != dirs->end();)
        if (*it == p || it->compare(0, pre.size(), pre) == 0)
        {
            it = dirs->erase(it);
            any = true;
        }
        else
            ++it;
    return any;
}
bool exists(const std::string& path) { return files->count(norm(path.c_str())) > 0; }
std::string get(const std::string& path)
{
    auto it = files->find(norm(path.c_str()));
    return it == files->end() ? std::string() : it->second;
}
std::vector<FsFault>& faults() { return *faults_; }
uint64_t calls(const std::string& op) { return (*counts)[op]; }
uint64_t reads_of(const std::string& path) { return (*reads)[norm(path.c_str())]; }
void virtual_on(bool on) { von = on; }
} // namespace rt::fs

extern "C" {
FILE* fopen64(const char* p, const char* mode)
{
    if (is_log(p))
    {
        static auto ro = real<int (*)(const char*, int, ...)>("open64");
        int fd = ro("/dev/null", O_WRONLY);
        reg(fd, "log", false, true);
        return fdopen(fd, "w");
    }
    if (!is_virtual(p))
    {
        static auto r = real<FILE* (*)(const char*, const char*)>("fopen64");
        return r(p, mode);
    }
    if (mode[0] != 'r')
    {
        errno = EROFS;
        return nullptr;
    }
    int fd = do_open(p);
    if (fd < 0)
        return nullptr;
    // libstdc++ opens directories successfully with fopen(.., "r"), reads then fail with EISDIR
    return fdopen(fd, "r");
}
FILE* fopen(const char* p, const char* mode) { return fopen64(p, mode); }

int open64(const char* p, int flags, ...)
{
    mode_t m = 0;
    if (flags & O_CREAT)
    {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (is_virtual(p))
    {
        if ((flags & O_ACCMODE) != O_RDONLY)
        {
            errno = EROFS;
            return -1;
        }
        return do_open(p);
    }
    static auto r = real<int (*)(const char*, int, ...)>("open64");
    return r(p, flags, m);
}
int open(const char* p, int flags, ...)
{
    mode_t m = 0;
    if (flags & O_CREAT)
    {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return open64(p, flags, m);
}
int openat(int dfd, const char* p, int flags, ...)
{
    if (is_virtual(p))
    {
        std::string path = norm(p);
        if (flags & O_DIRECTORY)
        {
            if (int e = fault("list", path))
            {
                errno = e;
                return -1;
            }
            if (!dir_exists(path))
            {
                errno = files->count(path) ? ENOTDIR : ENOENT;
                return -1;
            }
            int fd = make_fd("");
            reg(fd, path, true, false);
            return fd;
        }
        return do_open(p);
    }
    static auto r = real<int (*)(int, const char*, int, ...)>("openat");
    return r(dfd, p, flags, 0644);
}
int __openat_2(int dfd, const char* p, int flags) { return openat(dfd, p, flags); }
DIR* fdopendir(int fd)
{
    if (fd >= 0 && fd < MAXFD && vfd[fd].used && vfd[fd].dir)
        return (DIR*)make_dir(*vfd[fd].path, fd);
    static auto r = real<DIR* (*)(int)>("fdopendir");
    return r(fd);
}
DIR* opendir(const char* p)
{
    if (is_virtual(p))
    {
        std::string path = norm(p);
        if (int e = fault("list", path))
        {
            errno = e;
            return nullptr;
        }
        if (!dir_exists(path))
        {
            errno = files->count(path) ? ENOTDIR : ENOENT;
            return nullptr;
        }
        return (DIR*)make_dir(path, -1);
    }
    static auto r = real<DIR* (*)(const char*)>("opendir");
    return r(p);
}
struct dirent64* readdir64(DIR* dp)
{
    if (vdirs && vdirs->count(dp))
    {
        auto* d = (VDir*)dp;
        if (d->pos >= 2) // the first real entry
            if (int e = fault("readdir", d->path))
            {
                errno = e;
                return nullptr;
            }
        if (d->pos >= d->entries.size())
            return nullptr;
        auto& e = d->entries[d->pos++];
        memset(&d->de, 0, sizeof d->de);
        d->de.d_ino = d->pos;
        d->de.d_type = e.second ? DT_DIR : DT_REG;
        strncpy(d->de.d_name, e.first.c_str(), sizeof d->de.d_name - 1);
        return (struct dirent64*)&d->de;
    }
    static auto r = real<struct dirent64* (*)(DIR*)>("readdir64");
    return r(dp);
}
struct dirent* readdir(DIR* dp) { return (struct dirent*)readdir64(dp); }
int closedir(DIR* dp)
{
    if (vdirs && vdirs->count(dp))
    {
        auto* d = (VDir*)dp;
        vdirs->erase(dp);
        if (d->fd >= 0)
            close(d->fd);
        delete d;
        return 0;
    }
    static auto r = real<int (*)(DIR*)>("closedir");
    return r(dp);
}
int dirfd(DIR* dp)
{
    if (vdirs && vdirs->count(dp))
        return ((VDir*)dp)->fd;
    static auto r = real<int (*)(DIR*)>("dirfd");
    return r(dp);
}
ssize_t read(int fd, void* buf, size_t n)
{
    static auto r = real<ssize_t (*)(int, void*, size_t)>("read");
    if (fd >= 0 && fd < MAXFD && vfd[fd].used && vfd[fd].path)
    {
        if (vfd[fd].dir)
        {
            errno = EISDIR;
            return -1;
        }
        if (int e = fault("read", *vfd[fd].path))
        {
            errno = e;
            return -1;
        }
        static auto rl = real<off64_t (*)(int, off64_t, int)>("lseek64");
        if (n > 0 && !(n = readable(*vfd[fd].path, (uint64_t)rl(fd, 0, SEEK_CUR), n)))
            return -1;
        if (n > 1 && fault("short", *vfd[fd].path))
            n = 1 + n / 3; // a short count, to be continued by the caller
        if (n > 0 && fault("eof", *vfd[fd].path))
            return 0; // the file shrank: premature end
    }
    return r(fd, buf, n);
}
ssize_t write(int fd, const void* buf, size_t n)
{
    static auto r = real<ssize_t (*)(int, const void*, size_t)>("write");
    if (fd >= 0 && fd < MAXFD && vfd[fd].used && vfd[fd].log)
        if (int e = fault("write", "log"))
        {
            errno = e;
            return -1;
        }
    return r(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    static auto r = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
    if (fd >= 0 && fd < MAXFD && vfd[fd].used && vfd[fd].log)
        if (int e = fault("write", "log"))
        {
            errno = e;
            return -1;
        }
    return r(fd, v, n);
}
int close(int fd)
{
    static auto r = real<int (*)(int)>("close");
    unreg(fd);
    return r(fd);
}
int fclose(FILE* f)
{
    static auto r = real<int (*)(FILE*)>("fclose");
    unreg(fileno(f));
    return r(f);
}
int stat(const char* p, struct stat* sb)
{
    if (is_virtual(p))
        return do_stat(p, sb);
    static auto r = real<int (*)(const char*, struct stat*)>("stat");
    return r(p, sb);
}
int stat64(const char* p, struct stat64* sb)
{
    if (is_virtual(p))
        return do_stat(p, (struct stat*)sb);
    static auto r = real<int (*)(const char*, struct stat64*)>("stat64");
    return r(p, sb);
}
int lstat(const char* p, struct stat* sb)
{
    if (is_virtual(p))
        return do_stat(p, sb);
    static auto r = real<int (*)(const char*, struct stat*)>("lstat");
    return r(p, sb);
}
int access(const char* p, int m)
{
    if (is_virtual(p))
    {
        struct stat sb;
        return do_stat(p, &sb);
    }
    static auto r = real<int (*)(const char*, int)>("access");
    return r(p, m);
}
}
