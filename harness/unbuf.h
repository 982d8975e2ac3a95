// forced into the programs c28 runs: every line is written when it is complete
#include <cstdio>
static struct UnbufferedOutput { UnbufferedOutput() { setvbuf(stdout, nullptr, _IOLBF, 1 << 16); } } unbufferedOutput;
