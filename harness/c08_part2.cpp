#define C08_PART 2
#include "c08_chunk.inc"
