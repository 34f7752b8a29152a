#define main parmat_main
#include "PaRMAT/src/PaRMAT.cpp"
