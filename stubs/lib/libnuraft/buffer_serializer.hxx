#include "nuraft.hxx"
