// The Half component without _Float16 and without the conversion instructions: 16-bit storage, conversions in software.
#undef __F16C__
#define MUU_HAS_FLOAT16 0
#define EMULATED 1
#include "half_driver.cpp"
