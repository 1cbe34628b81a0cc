#define C08_PART 6
#include "c08_chunk.inc"
