#ifndef SIM_PROCS_HPP
#define SIM_PROCS_HPP
#include "sim.hpp"
#include <set>
namespace sim {
typedef std::map<int, SockP> FdTable;
extern FdTable g_fds;
void fds_ref(FdTable &t, int d);
int sim_close_fd(int fd);
FdTable *child_fds();            // non-null while inside a simulated child
bool take_eintr();
int signal_seq();
bool is_main_tid();
void set_main_tid(int t);
long proc_read(SockP s, char *buf, size_t n, i64 deadline);
bool proc_write(SockP s, const std::string &d);
// CGI children: program run by execl in a simulated child process
struct ChildIO {
    SockP in, out;
    std::map<std::string, std::string> env;
    std::string path, cwd;
    std::vector<std::string> argv;
    int pid;
    int extra_fds = 0;               // descriptors beside 0, 1 and 2 after exec
    std::string extra;
    bool ignore_term = false;
    volatile bool killed;
    int killed_sig;
};
void proc_close(ChildIO &io, int fd);   // by the program itself
extern int fork_fail_den;            // 1/den forks fail
std::set<int> &cur_cloexec();
extern std::set<int> g_cloexec;
extern std::function<int(ChildIO &)> child_program;
int children_running();
int children_zombies();
int children_total();
}
#endif
