#define C08_PART 4
#include "c08_chunk.inc"
