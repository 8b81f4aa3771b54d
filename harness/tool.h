#pragma once
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

// Runs a tool of the repository; its exit code, 256 + n for signal n.
static int RunTool(const std::string& tool, std::vector<std::string> args, std::string* out) {
  const char* dir = getenv("VH_TOOLS");
  std::string exe = std::string(dir ? dir : "/nonexistent") + "/tool_" + tool;
  int fd[2];
  if (pipe(fd)) _exit(3);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 1);
    close(fd[0]);
    close(fd[1]);
    std::vector<char*> argv{const_cast<char*>(exe.c_str())};
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    execv(exe.c_str(), argv.data());
    _exit(99);
  }
  close(fd[1]);
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) out->append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
