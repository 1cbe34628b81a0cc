#define C08_PART 1
#include "c08_chunk.inc"
