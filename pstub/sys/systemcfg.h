#pragma once
struct pstub_aix { int dcache_size, dcache_asc, icache_size, icache_asc, L2_cache_size, L2_cache_asc, ncpus; };
extern struct pstub_aix _system_configuration;
