// The Half component without _Float16: 16-bit storage, conversions by the processor's instructions.
#define MUU_HAS_FLOAT16 0
#define EMULATED 1
#include "half_driver.cpp"
