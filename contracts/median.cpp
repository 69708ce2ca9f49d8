// inc=part   median_of_medians: one of the elements of the range
#define MEDIAN
#include "select.cpp"
