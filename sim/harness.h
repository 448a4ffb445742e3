#ifndef HARNESS_H
#define HARNESS_H
#include "sim.h"
#include "params.h"
extern const char **probe_names; extern const int nprobes;
void harness_main(void *arg);
void harness_init(void);   // parent, once: allocate model tables
#endif
