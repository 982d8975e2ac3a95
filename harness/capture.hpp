// what a call writes to standard output
#pragma once
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
#include <string>
#include <cstdio>
namespace vh {
template <class F> std::string captured(F f) {
  fflush(stdout); std::cout.flush();
  FILE *t = tmpfile(); int old = dup(1); dup2(fileno(t), 1);
  f();
  fflush(stdout); std::cout.flush();
  dup2(old, 1); close(old);
  std::string s; char b[4096]; rewind(t); size_t n;
  while ((n = fread(b, 1, sizeof b, t)) > 0) s.append(b, n);
  fclose(t); return s;
}
}
