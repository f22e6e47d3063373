// Record sink of the demonstrations: one line per record, to the file VT_LOG.<pid>.
#include "vscript.h"
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <string>
#include <unistd.h>
extern "C" void vt_log(int comp, char kind, int i, uint64_t t, int64_t a, int64_t b, unsigned, unsigned)
{
    static std::mutex mx;
    static FILE* f = nullptr;
    std::lock_guard<std::mutex> l(mx);
    if ( !f ) {
        const char* p = getenv("VT_LOG");
        if ( !p ) return;
        f = fopen((std::string(p) + "." + std::to_string(getpid())).c_str(), "a");
    }
    fprintf(f, "%d %c%d %llu %lld %lld\n", comp, kind, i, (unsigned long long)t, (long long)a, (long long)b);
    fflush(f);
}
