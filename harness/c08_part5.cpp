#define C08_PART 5
#include "c08_chunk.inc"
