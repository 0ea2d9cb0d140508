// Shared by the drivers: script reading, JSON output, one process per trace.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <signal.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vf {

inline std::string num(double x)
{
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", x);
  return std::string("\"") + buf + "\"";
}

inline std::string str(const std::string& s)
{
  std::string out = "\"";
  for (unsigned char c : s) {
    char buf[8];
    if (c == '"' || c == '\\') { out += '\\'; out += c; }
    else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
    else out += c;
  }
  return out + "\"";
}

inline std::string boolean(bool b) { return b ? "true" : "false"; }

template <typename T, typename F>
std::string list(const std::vector<T>& v, F f)
{
  std::string out = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) out += ","; out += f(v[i]); }
  return out + "]";
}

inline std::string unhex(const std::string& h)
{
  std::string out;
  if (h == "-") return out;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    out += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return out;
}

inline std::string slurp(const std::string& path, bool& ok)
{
  FILE* f = fopen(path.c_str(), "rb");
  std::string out;
  ok = f != nullptr;
  if (!f) return out;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n);
  fclose(f);
  return out;
}

// the real stdout; the library's own printing goes to /dev/null
static int outFd = 1;

inline void emit(const std::string& line)
{
  std::string s = line + "\n";
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = write(outFd, s.data() + off, s.size() - off);
    if (n <= 0) _exit(99);
    off += n;
  }
}

inline void limitFileSize(long bytes)
{
  struct rlimit rl;
  getrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = bytes < 0 ? rl.rlim_max : (rlim_t)bytes;
  setrlimit(RLIMIT_FSIZE, &rl);
}

// So much time of the processor, and more than that if it is shared
inline void limitTime(int seconds)
{
  struct rlimit rl;
  rl.rlim_cur = seconds;
  rl.rlim_max = seconds + 5;
  setrlimit(RLIMIT_CPU, &rl);
  alarm(6 * seconds);
}

// A few files may be open at a time: files that are not closed soon make everything fail
inline void limitFiles()
{
  int next = open("/dev/null", O_RDONLY);
  close(next);
  struct rlimit rl;
  getrlimit(RLIMIT_NOFILE, &rl);
  rl.rlim_cur = next + 5;
  setrlimit(RLIMIT_NOFILE, &rl);
}

// One file's content (null: nothing) becomes that of another path; all such files are equally old.
inline std::string put(const std::string& from, const std::string& to)
{
  bool ok;
  std::string s = slurp(from, ok);
  FILE* f = fopen(to.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) _exit(96);
  struct timespec t[2] = {{1000000000, 0}, {1000000000, 0}};
  utimensat(AT_FDCWD, to.c_str(), t, 0);
  return "\"ok\":true";
}

typedef std::vector<std::string> args_t;

// Runs every trace of the script in a child process: "T <id>" starts a trace; the other lines are commands.
// step(args) returns the JSON fields of the result.  Scratch directory: first argument, must exist.
inline int runScript(int argc, char** argv, std::function<void()> setup,
                     std::function<std::string(const args_t&)> step)
{
  if (argc < 3) { fprintf(stderr, "usage: driver <script> <seconds per trace>\n"); return 2; }
  std::ifstream f(argv[1]);
  if (!f) { fprintf(stderr, "cannot open script\n"); return 2; }
  int seconds = atoi(argv[2]);
  std::vector<std::pair<std::string, std::vector<args_t>>> traces;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    args_t a;
    std::string w;
    while (is >> w) a.push_back(w);
    if (a.empty()) continue;
    if (a[0] == "T") traces.push_back({a[1], {}});
    else traces.back().second.push_back(a);
  }
  signal(SIGXFSZ, SIG_IGN);
  outFd = dup(1);
  int null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  std::cout.flush();
  int hangs = 0;
  for (auto& t : traces) {
    if (hangs > 1) break;   // enough to report
    emit("{\"trace\":" + str(t.first) + "}");
    pid_t pid = fork();
    if (pid == 0) {
      limitTime(seconds);
      limitFiles();
      setup();
      for (auto& a : t.second) {
        std::string r = a[0] == "put" ? put(unhex(a[1]), unhex(a[2])) : step(a);
        emit("{" + r + "}");
      }
      std::cout.flush();
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU);
      hangs += hang;
      emit(std::string("{\"crash\":\"") + (hang ? "hang" : "crash") + "\",\"status\":" + std::to_string(st) + "}");
    }
  }
  return 0;
}

} // namespace vf
#endif
