#include_next <linux/types.h>
#include "kernel_all.h"
