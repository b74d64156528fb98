// The Consts component without _Float16: half's constants are written as bit patterns.
#define MUU_HAS_FLOAT16 0
#define EMULATED 1
#include "consts_driver.cpp"
