#include "run.h"
int mode_args() { return 3; } int mode_seq() { return 3; } int mode_layout() { return 3; }
