#define C08_PART 0
#include "c08_chunk.inc"
