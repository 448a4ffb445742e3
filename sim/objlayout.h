#ifndef OBJLAYOUT_H
#define OBJLAYOUT_H
#include <stdint.h>
// word 0: tag (odd while live in place; even nonzero = forwarding address; 0 = busy)
// word 1: id<<1|1 mixed; then nfields references, then payload (odd words).
struct ohdr { uintptr_t tag; uintptr_t idw; };
enum { K_NODE = 0, K_LEAF = 1, K_EPH = 2, K_FIN = 3, K_EXT = 4 };
#define MK_TAG(kind, nf, nw) (1ULL | ((uintptr_t)(kind) << 1) | ((uintptr_t)(nf) << 8) | ((uintptr_t)(nw) << 32))
#define TAG_KIND(t) (((t) >> 1) & 7)
#define TAG_NFIELDS(t) (((t) >> 8) & 0xffffff)
#define TAG_NWORDS(t) ((t) >> 32)
#define OBJ_FIELDS(o) ((uintptr_t *)(o) + 2)
#define SIM_NPRIO 3
#endif
