// Driver: "hsim serve" reads one scenario (JSON text) per line and answers with one result line each. Every scenario runs
// in a forked child that starts from exactly the same warmed-up state, so a result depends on the scenario alone.
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <poll.h>
#include <sched.h>
#include <string>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include "analyzer.h"
#include "client.h"
#include "rt.h"

static int g_out_fd = 1;

static void write_all(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size())
    {
        ssize_t n = syscall(SYS_write, fd, s.data() + o, s.size() - o);
        if (n <= 0)
        {
            if (n < 0 && errno == EINTR)
                continue;
            return;
        }
        o += (size_t)n;
    }
}

static void report(const char* kind, const std::string& detail)
{
    rt::Harness h;
    Sim& s = *g_sim;
    if (kind)
        s.viol.insert(s.viol.begin(), Violation { kind, detail });
    json r = s.result();
    if (kind)
        r["fatal"] = kind;
    if (s.sc.value("want_dev", false))
    {
        json d = json::array();
        for (auto& x : rt::recorded())
            d.push_back(json::array({ x.tid, x.at, x.to }));
        r["dev"] = d;
    }
    if (s.sc.value("want_hist", true))
    {
        json hh = json::array();
        for (auto& e : s.hist)
            hh.push_back(json::array({ e.step, std::string(1, e.dir), e.what, e.msg }));
        r["hist"] = hh;
    }
    write_all(g_out_fd, r.dump(-1, ' ', true, json::error_handler_t::replace) + "\n");
}

static void fatal_cb(const char* kind, const std::string& detail)
{
    std::string k = kind, d = detail;
    report(k.c_str(), d);
    _exit(0);
}

static void child(const char* text, size_t n)
{
    rt::select_arena(0);
    Sim* s = new Sim;
    s->sc = json::parse(text, text + n);
    rt::on_fatal = fatal_cb;
    rt::install_crash_handlers(s->sc.value("cpu", 20));
    s->run();
    report(nullptr, "");
    _exit(0);
}

static const char warm_src[] = R"(
         MACRO
&L       M     &A,&B=3
         LCLA  &I
.L       ANOP
&I       SETA  &I+1
         AIF   (&I LT 3).L
         MNOTE 4,'WARM &A &B(1)'
&L       LR    1,&I
         MEND
         COPY  NOTHERE
X        EQU   5
         M     7,B=(1,2)
         LR    1,X
         L     2,DATA+4(3)
         USING *,12
DATA     DC    F'1',CL4'AB'
         DS    0H
         NOSUCH 1
&S       SETC  'AB'.'CD'(1,1)
&C       SETB  (1 AND 0)
         AGO   .E
         LR    99
.E       ANOP
         END
)";

static void warm_up()
{
    using namespace hlasm_plugin::parser_library;
    std::string t = warm_src;
    analyzer a(t, "warm", workspaces::empty_parse_lib_provider::instance, true);
    a.analyze();
    a.collect_diags();
    // half-typed statements, so that the parser's tables for them are built once and not in every run
    std::string u;
    for (const char* l : { "&A1      SETA  &A1+1", "         AIF   (&A1 LT 20).L1", "&C1      SETC  'T12'", "L12      EQU   15",
             "         LR    L12,1", "         COPY  C1", "         M1    7", ".L1      ANOP", "         Z12", "* remark 5",
             "         AGO   .S1", "X        DC    C'AB',F'1'", "         MACRO", "         MEND" })
    {
        std::string t2 = l;
        for (size_t i = 1; i <= t2.size(); ++i)
            u += t2.substr(0, i) + "\n";
        for (size_t i = 1; i < t2.size(); ++i)
            u += t2.substr(i) + "\n";
    }
    std::string v;
    for (size_t i = 0, line = 0; i < u.size(); ++line)
    {
        // MACRO statements would swallow the rest
        size_t e = u.find('\n', i);
        std::string one = u.substr(i, e - i);
        if (one.find("MACRO") == std::string::npos && one.find("ACRO") != 0)
            v += one + "\n";
        i = e + 1;
    }
    analyzer b(v, "warm2", workspaces::empty_parse_lib_provider::instance, true);
    b.analyze();
}

int main(int argc, char** argv)
{
    setenv("TZ", "UTC", 1);
    // the same addresses every time, if the system permits it
    if (!getenv("HSIM_NO_ASLR"))
    {
        setenv("HSIM_NO_ASLR", "1", 1);
        int old = personality(0xffffffff);
        if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality((unsigned long)old | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IONBF, 0);
    cpu_set_t set;
    if (const char* c = getenv("HSIM_CPU"))
    {
        CPU_ZERO(&set);
        CPU_SET(atoi(c), &set);
        sched_setaffinity(0, sizeof set, &set);
    }
    int limit_ms = 60000;
    if (const char* c = getenv("HSIM_TIMEOUT_MS"))
        limit_ms = atoi(c);
    warm_up();
    rt::select_arena(1);
    static char rb[1 << 16];
    std::string buf;
    signal(SIGPIPE, SIG_IGN);
    for (;;)
    {
        size_t nl;
        while ((nl = buf.find('\n')) == std::string::npos)
        {
            ssize_t n = syscall(SYS_read, 0, rb, sizeof rb);
            if (n <= 0)
                return 0;
            buf.append(rb, (size_t)n);
        }
        int pfd[2];
        if (::pipe(pfd) != 0)
            return 3;
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            syscall(SYS_close, pfd[0]);
            int devnull = (int)syscall(SYS_open, "/dev/null", 0);
            dup2(devnull, 0);
            g_out_fd = pfd[1];
            child(buf.data(), nl);
        }
        syscall(SYS_close, pfd[1]);
        std::string out;
        bool timeout = false;
        int left = limit_ms;
        for (;;)
        {
            pollfd p { pfd[0], POLLIN, 0 };
            timespec t0, t1;
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
            int rc = poll(&p, 1, left);
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
            left -= (int)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000);
            if (rc == 0 || left <= 0)
            {
                timeout = true;
                break;
            }
            ssize_t n = syscall(SYS_read, pfd[0], rb, sizeof rb);
            if (n <= 0)
                break;
            out.append(rb, (size_t)n);
        }
        syscall(SYS_close, pfd[0]);
        if (timeout)
            kill(pid, SIGKILL);
        int st = 0;
        waitpid(pid, &st, 0);
        if (timeout)
            out = "{\"driver_error\":\"real-time limit\"}\n";
        else if (out.empty() || out.back() != '\n')
            out = "{\"driver_error\":\"child ended without a result, status " + std::to_string(st) + "\"}\n";
        write_all(1, out);
        buf.erase(0, nl + 1);
    }
}
