/* stand-in for the Windows headers, enough for the entropy code path */
#ifndef VF_WINDOWS_H
#define VF_WINDOWS_H
#include <stdint.h>
typedef int BOOL; typedef unsigned char BYTE; typedef uint32_t DWORD; typedef uintptr_t HCRYPTPROV; typedef uint32_t ULONG; typedef unsigned char *PUCHAR; typedef const char *LPCSTR; typedef void *HANDLE;
#define TRUE 1
#define FALSE 0
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40u
BOOL vf_CryptAcquireContext(HCRYPTPROV *p, LPCSTR container, LPCSTR provider, DWORD type, DWORD flags);
BOOL vf_CryptGenRandom(HCRYPTPROV h, DWORD len, BYTE *buf);
BOOL vf_CryptReleaseContext(HCRYPTPROV h, DWORD flags);
DWORD vf_GetLastError(void);
#define CryptAcquireContext vf_CryptAcquireContext
#define CryptAcquireContextA vf_CryptAcquireContext
#define CryptGenRandom vf_CryptGenRandom
#define CryptReleaseContext vf_CryptReleaseContext
#define GetLastError vf_GetLastError
#endif
