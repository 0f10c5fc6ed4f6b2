// LLVM's demangler, behind a C interface.
#include "llvm/Demangle/Demangle.h"
#include <cstdlib>
#include <cstring>
#include <string_view>

extern "C" char *verif_llvm_demangle(const char *s, size_t n, size_t *consumed, unsigned flags) {
    int status = 0;
    size_t used = 0;
    char *r = llvm::microsoftDemangle(std::string_view(s, n), &used, &status,
                                      static_cast<llvm::MSDemangleFlags>(flags));
    *consumed = used;
    return r;
}
extern "C" void verif_llvm_free(char *p) { std::free(p); }
