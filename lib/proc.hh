// Running a program's main() in a child process, and scratch directories.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <signal.h>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>

namespace proc {
using std::string; using std::vector;
inline string slurp(const string & f) { string r; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return r; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
inline bool spit(const string & f, const string & s) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return false; size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) { close(fd); return false; } o += n; } close(fd); return true; }
inline bool exists(const string & f) { struct stat st; return lstat(f.c_str(), &st) == 0; }
inline bool is_dir(const string & f) { struct stat st; return lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
inline vector<string> ls(const string & d) { vector<string> r; DIR * D = opendir(d.c_str()); if (!D) return r; while (dirent * e = readdir(D)) { string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(D); std::sort(r.begin(), r.end()); return r; }
// removes a scratch tree; refuses anything that does not carry the scratch mark in its path
inline void wipe(const string & d) {
  if (d.find("/hycu-scratch.") == string::npos) { fprintf(stderr, "wipe: not a scratch path: %s\n", d.c_str()); exit(3); }
  if (!is_dir(d)) { unlink(d.c_str()); return; }
  for (auto & n : ls(d)) { string f = d + "/" + n; if (is_dir(f)) wipe(f); else unlink(f.c_str()); }
  rmdir(d.c_str());
}
inline void wipe_inside(const string & d) { for (auto & n : ls(d)) wipe(d + "/" + n); }
inline string scratch() {
  const char * base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"; string t = string(base) + "/hycu-scratch.XXXXXX"; vector<char> b(t.begin(), t.end()); b.push_back(0);
  if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(3); } return b.data();
}
struct Res { int rc; string out, err; bool timeout = false; };   // rc: exit status, or 128+signal
template<class F> Res in_child(const string & tmp, int seconds, F && f) {
  Res r; string fo = tmp + "/.out", fe = tmp + "/.err"; fflush(stdout); fflush(stderr);
  pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    int o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(o, 1); dup2(e, 2); close(o); close(e);
    struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); setpgid(0, 0);
    exit(f());
  }
  int st = 0; struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); long us = 50;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break;
    clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec - t0.tv_sec >= seconds) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.timeout = true; break; }
    usleep(us); if (us < 2000) us += us / 4;
  }
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); r.out = slurp(fo); r.err = slurp(fe); unlink(fo.c_str()); unlink(fe.c_str()); return r;
}
inline Res call_main(int (*m)(int, char **), const string & tmp, const vector<string> & args, int seconds = 60) {
  return in_child(tmp, seconds, [&] { vector<char *> a; for (auto & s : args) a.push_back(strdup(s.c_str())); a.push_back(nullptr); return m((int)args.size(), a.data()); });
}
} // namespace proc
