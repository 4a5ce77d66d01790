#include "storage_runner.h"
void RunFile(const V& p) { Runner<F_FILE> r; r.Run(p); }
