// Firmware of check E07: the jobs of check E06.
#include "e06.cpp"
