// The explorer with room for pages of thousands of records, devices of hundreds of pages and long histories.
#define MC_MAXR 4600
#define MC_PRING 2048
#include "explore.cpp"
