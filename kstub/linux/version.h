#include_next <linux/version.h>
#include "kernel_all.h"
