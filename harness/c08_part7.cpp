#define C08_PART 7
#include "c08_chunk.inc"
