// inc=merge   parallel_merge with two different iterator types
#define MERGE_TYPES
#include "merge.cpp"
