// A stand-in for <Windows.h>: the calls that the Windows branches use, with the behaviour that Microsoft documents, on
// top of a world that the harness sets up (c35_windows.cpp). Every call is checked for its preconditions.
#pragma once
#include <stddef.h>
#include <stdint.h>

typedef uint32_t DWORD;
typedef int BOOL;
typedef int32_t HRESULT;
typedef unsigned long HANDLE;  // what std::thread::native_handle() is here
typedef struct StandInModule* HMODULE;
typedef HMODULE HINSTANCE;
typedef void* LPVOID;
typedef const void* LPCVOID;
typedef const char* LPCSTR;
typedef char* LPSTR;
typedef const wchar_t* PCWSTR;
typedef const wchar_t* LPCWSTR;
typedef size_t SIZE_T;
typedef void (*FARPROC)();
#define WINAPI
#define APIENTRY
#define TRUE 1
#define FALSE 0
#define MAX_PATH 260
#define TLS_OUT_OF_INDEXES ((DWORD)0xFFFFFFFF)
#define INVALID_FILE_ATTRIBUTES ((DWORD)-1)
#define FILE_ATTRIBUTE_READONLY 0x1
#define FILE_ATTRIBUTE_HIDDEN 0x2
#define FILE_ATTRIBUTE_SYSTEM 0x4
#define FILE_ATTRIBUTE_DIRECTORY 0x10
#define FILE_ATTRIBUTE_ARCHIVE 0x20
#define FILE_ATTRIBUTE_DEVICE 0x40
#define FILE_ATTRIBUTE_NORMAL 0x80
#define FILE_ATTRIBUTE_REPARSE_POINT 0x400
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_STRING 0x400
#define FORMAT_MESSAGE_FROM_HMODULE 0x800
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define FORMAT_MESSAGE_ARGUMENT_ARRAY 0x2000
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xFF
#define LANG_NEUTRAL 0
#define SUBLANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((((uint16_t)(s)) << 10) | (uint16_t)(p))
#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_PATH_NOT_FOUND 3
#define ERROR_INVALID_HANDLE 6
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_MOD_NOT_FOUND 126
#define ERROR_PROC_NOT_FOUND 127
#define ERROR_ALREADY_EXISTS 183
#define ERROR_MR_MID_NOT_FOUND 317
#define S_OK 0
#define SUCCEEDED(hr) ((hr) >= 0)
#define FAILED(hr) ((hr) < 0)

DWORD TlsAlloc();
BOOL TlsFree(DWORD slot);
LPVOID TlsGetValue(DWORD slot);
BOOL TlsSetValue(DWORD slot, LPVOID value);
DWORD GetLastError();
void SetLastError(DWORD code);
HANDLE GetCurrentThread();
DWORD GetCurrentThreadId();
HMODULE LoadLibraryA(LPCSTR path);
HMODULE LoadLibraryW(LPCWSTR path);
HMODULE GetModuleHandleA(LPCSTR path);
BOOL FreeLibrary(HMODULE module);
FARPROC GetProcAddress(HMODULE module, LPCSTR name);
DWORD GetFileAttributesA(LPCSTR path);
BOOL CreateDirectoryA(LPCSTR path, void* security);
DWORD FormatMessageA(DWORD flags, LPCVOID source, DWORD code, DWORD lang, LPSTR buffer, DWORD size, void* args);
void* LocalFree(void* p);
HRESULT SetThreadDescription(HANDLE thread, PCWSTR text);
// The real header renames these as well.
#define LoadLibrary LoadLibraryA
#define GetFileAttributes GetFileAttributesA
#define CreateDirectory CreateDirectoryA
#define FormatMessage FormatMessageA
