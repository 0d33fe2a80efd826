#pragma once
#include "crypto.h"
int EVP_default_properties_is_fips_enabled(void *ctx);
