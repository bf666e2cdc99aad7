// What a function prints.
#pragma once
#include "engine.h"
#include "fits.h"
#include <fcntl.h>
#include <functional>
#include <string>
#include <unistd.h>
#include <vector>

struct Said { std::string out, err; };
inline Said said(const std::function<void()> &fn)
{
  std::string n[2] = {scratch_file("out"), scratch_file("err")};
  fflush(stdout);
  fflush(stderr);
  int save[2];
  for (int i = 0; i < 2; i++)
  {
    save[i] = dup(i + 1);
    int fd = open(n[i].c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    dup2(fd, i + 1);
    close(fd);
  }
  fn();
  fflush(stdout);
  fflush(stderr);
  Said s;
  for (int i = 0; i < 2; i++) { dup2(save[i], i + 1); close(save[i]); (i ? s.err : s.out) = read_bytes(n[i]); unlink(n[i].c_str()); }
  return s;
}
inline bool has(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }
inline std::vector<std::string> lines(const std::string &s)
{
  std::vector<std::string> v;
  size_t p = 0, e;
  while ((e = s.find('\n', p)) != std::string::npos) { v.push_back(s.substr(p, e - p)); p = e + 1; }
  if (p < s.size()) v.push_back(s.substr(p));
  return v;
}
