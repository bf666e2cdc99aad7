// Running the command-line utilities (built next to this program).
#pragma once
#include "fits.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

inline std::string bindir()
{
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n < 0) fail("no /proc/self/exe");
  std::string s(b, n);
  return s.substr(0, s.rfind('/')) + "/bin/";
}
struct Result { int code = -1; std::string out, err; };
// limit: size at which files cannot grow further; input: on standard input
inline Result tool(const std::string &name, const std::vector<std::string> &args, size_t limit = 0, const std::string &input = "")
{
  Result r;
  int pp[2] = {-1, -1};
  if (limit && pipe(pp)) fail("pipe failed");
  std::string fo = scratch_file("out"), fe = scratch_file("err"), fi = scratch_file("stdin");
  if (!input.empty()) write_bytes(fi, input);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    std::string ao = getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "", uo = getenv("UBSAN_OPTIONS") ? getenv("UBSAN_OPTIONS") : "";
    setenv("ASAN_OPTIONS", (ao + ":exitcode=99").c_str(), 1);
    setenv("UBSAN_OPTIONS", (uo + ":exitcode=99").c_str(), 1);
    unsetenv("G_MESSAGES_DEBUG");
    int o = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), i = open(input.empty() ? "/dev/null" : fi.c_str(), O_RDONLY);
    dup2(i, 0);
    if (limit)
    {
      dup2(pp[1], 1); dup2(pp[1], 2);
      close(pp[0]); close(pp[1]);
      struct rlimit rl = {limit, limit};
      setrlimit(RLIMIT_FSIZE, &rl);
      signal(SIGXFSZ, SIG_IGN);
    }
    else { dup2(o, 1); dup2(e, 2); }
    std::string path = bindir() + name;
    std::vector<char *> a;
    a.push_back(const_cast<char *>(name.c_str()));
    for (auto &s : args) a.push_back(const_cast<char *>(s.c_str()));
    a.push_back(nullptr);
    execv(path.c_str(), a.data());
    _exit(127);
  }
  std::string piped;
  if (limit)
  {
    close(pp[1]);
    char b[4096];
    ssize_t n;
    while ((n = read(pp[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) piped.append(b, n);
    close(pp[0]);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  r.out = read_bytes(fo);
  r.err = read_bytes(fe) + piped;
  unlink(fo.c_str());
  unlink(fe.c_str());
  unlink(fi.c_str());
  std::string cmd = name;
  for (auto &s : args) cmd += " '" + s + "'";
  if (WIFSIGNALED(st)) fail("%s was killed by signal %d: %s", cmd.c_str(), WTERMSIG(st), r.err.substr(0, 1500).c_str());
  r.code = WEXITSTATUS(st);
  if (r.code == 127) fail("cannot run %s", cmd.c_str());
  if (r.code == 99 || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos)
  {
    size_t p = r.err.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = r.err.find("runtime error:");
    if (p == std::string::npos) p = 0;
    fail("%s: %s", cmd.c_str(), r.err.substr(p > 80 ? p - 80 : 0, 1500).c_str());
  }
  return r;
}
inline bool exists(const std::string &f) { struct stat s; return lstat(f.c_str(), &s) == 0; }
