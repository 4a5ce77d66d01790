#include "storage_runner.h"
void RunMem(const V& p) { Runner<F_MEM> r; r.Run(p); }
