// Driver for C12: the stream driver with report requests.
#define WITH_REPORT 1
#include "streams.cpp"
