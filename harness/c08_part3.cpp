#define C08_PART 3
#include "c08_chunk.inc"
