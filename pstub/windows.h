/* the part of the Windows interface that the cache discovery uses */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef uint32_t DWORD;
typedef uint16_t WORD;
typedef uint8_t BYTE;
typedef int BOOL;
typedef uint32_t ULONG;
typedef void *LPVOID;
typedef void *PVOID;
typedef size_t SIZE_T;
typedef DWORD *PDWORD;
typedef uint64_t KAFFINITY;
#define TRUE 1
#define FALSE 0
#define ERROR_INSUFFICIENT_BUFFER 122u
typedef enum { RelationProcessorCore, RelationNumaNode, RelationCache, RelationProcessorPackage, RelationGroup, RelationAll = 0xffff } LOGICAL_PROCESSOR_RELATIONSHIP;
typedef enum { CacheUnified, CacheInstruction, CacheData, CacheTrace } PROCESSOR_CACHE_TYPE;
typedef struct { KAFFINITY Mask; WORD Group; WORD Reserved[3]; } GROUP_AFFINITY;
typedef struct { BYTE Level; BYTE Associativity; WORD LineSize; DWORD CacheSize; PROCESSOR_CACHE_TYPE Type; BYTE Reserved[18]; WORD GroupCount; GROUP_AFFINITY GroupMask; } CACHE_RELATIONSHIP, *PCACHE_RELATIONSHIP;
typedef struct { BYTE Flags; BYTE EfficiencyClass; BYTE Reserved[20]; WORD GroupCount; GROUP_AFFINITY GroupMask[1]; } PROCESSOR_RELATIONSHIP;
typedef struct { BYTE MaximumProcessorCount; BYTE ActiveProcessorCount; BYTE Reserved[38]; KAFFINITY ActiveProcessorMask; } PROCESSOR_GROUP_INFO;
typedef struct { WORD MaximumGroupCount; WORD ActiveGroupCount; BYTE Reserved[20]; PROCESSOR_GROUP_INFO GroupInfo[1]; } GROUP_RELATIONSHIP, *PGROUP_RELATIONSHIP;
typedef struct { LOGICAL_PROCESSOR_RELATIONSHIP Relationship; DWORD Size; union { PROCESSOR_RELATIONSHIP Processor; CACHE_RELATIONSHIP Cache; GROUP_RELATIONSHIP Group; }; } SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, *PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX;
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP r, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX b, PDWORD len);
DWORD GetLastError(void);

#define ALL_PROCESSOR_GROUPS 0xffff
DWORD GetActiveProcessorCount(WORD group);
typedef struct { DWORD dwPageSize, dwNumberOfProcessors; } SYSTEM_INFO, *LPSYSTEM_INFO;
void GetSystemInfo(SYSTEM_INFO *s);
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define PAGE_NOACCESS 1
#define PAGE_READONLY 2
#define PAGE_READWRITE 4
void *VirtualAlloc(void *at, size_t n, DWORD type, DWORD prot);
BOOL VirtualProtect(void *p, size_t n, DWORD prot, DWORD *old);
BOOL VirtualFree(void *p, size_t n, DWORD type);
BOOL VirtualLock(void *p, size_t n);
BOOL VirtualUnlock(void *p, size_t n);
#define SecureZeroMemory(p, n) pstub_zero(p, n)
#define RtlSecureZeroMemory(p, n) pstub_zero(p, n)
#define ZeroMemory(p, n) pstub_zero(p, n)
void pstub_zero(void *p, size_t n);

typedef void *HANDLE;
typedef union { struct { uint32_t LowPart; int32_t HighPart; }; int64_t QuadPart; } LARGE_INTEGER;
#define INFINITE 0xffffffffu
#define __stdcall
HANDLE GetCurrentThread(void);
BOOL SetThreadGroupAffinity(HANDLE h, const GROUP_AFFINITY *to, GROUP_AFFINITY *was);
DWORD WaitForSingleObject(HANDLE h, DWORD ms);
BOOL CloseHandle(HANDLE h);
BOOL SwitchToThread(void);
BOOL QueryPerformanceCounter(LARGE_INTEGER *t);
BOOL QueryPerformanceFrequency(LARGE_INTEGER *t);
