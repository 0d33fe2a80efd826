#include "kernel_all.h"
