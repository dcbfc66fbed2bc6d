// Compiles generated C++ with clang-14 in a scratch directory.
#pragma once
#include "pbt.h"

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <spawn.h>
#include <stdlib.h>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern char **environ;

namespace clangrun {
struct Dir {
  std::string Path;
  Dir() {
    char B[] = "/tmp/phasar-pbt-XXXXXX";
    if (const char *P = mkdtemp(B))
      Path = P;
  }
  Dir(const Dir &) = delete;
  ~Dir() {
    std::error_code E;
    if (Path.rfind("/tmp/phasar-pbt-", 0) == 0)
      std::filesystem::remove_all(Path, E);
  }
  void write(const std::string &Name, const std::string &Text) const {
    std::ofstream(Path + "/" + Name, std::ios::binary) << Text;
  }
};

inline bool clang(const std::vector<std::string> &Args) {
  std::vector<char *> A{const_cast<char *>("/usr/bin/clang++-14")};
  for (auto &S : Args)
    A.push_back(const_cast<char *>(S.c_str()));
  A.push_back(nullptr);
  pid_t Pid;
  posix_spawn_file_actions_t FA;
  posix_spawn_file_actions_init(&FA);
  posix_spawn_file_actions_addopen(&FA, 2, "/dev/null", O_WRONLY, 0);
  int R = posix_spawn(&Pid, A[0], &FA, nullptr, A.data(), environ);
  posix_spawn_file_actions_destroy(&FA);
  if (R != 0)
    return false;
  int St;
  return waitpid(Pid, &St, 0) == Pid && St == 0;
}
} // namespace clangrun
