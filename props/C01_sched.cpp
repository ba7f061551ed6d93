#include "../mc/mcsched.cpp"
