// Driver for C08: the stream driver with span streams.
#define WITH_SPANS 1
#include "streams.cpp"
