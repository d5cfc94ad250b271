// VCAP 143360
// Single operations of 64 to 128 KiB, the most the kernel sends.
#include "real.cpp"
