// Silences what the code under test prints (and can capture what it sends to std::cout).
#pragma once
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
struct Quiet { std::ostringstream out, err; std::streambuf *o, *e; int fd;
    Quiet() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) { fflush(stdout); fd = dup(1); int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); close(n); } }
    ~Quiet() { fflush(stdout); if (fd >= 0) { dup2(fd, 1); close(fd); } std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
