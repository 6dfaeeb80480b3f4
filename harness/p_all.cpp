// All model-based tests of the tensor library in one binary, for sanitizer builds and for other
// compile-time configurations.  Every file keeps its own namespace and test-name prefix.
#ifdef CHECKED_PMR
#include "checked_pmr.hpp"
#endif
#include <iomanip>
#ifdef PBT_LEAKCHECK
#include "leakcount.hpp"
#endif
#include "bridge.hpp"
#ifdef TAT_USE_MKL_GEMM_BATCH
#include "standins.hpp"
#endif
#ifndef NO_TRANSPOSE
#undef PBT_PREFIX
#define PBT_PREFIX "transpose."
namespace all_transpose {
#include "p_transpose.cpp"
}
#endif
#ifndef NO_MERGE
#undef PBT_PREFIX
#define PBT_PREFIX "merge."
namespace all_merge {
#include "p_merge.cpp"
}
#endif
#ifndef NO_EDGEOP
#undef PBT_PREFIX
#define PBT_PREFIX "edgeop."
namespace all_edgeop {
#include "p_edgeop.cpp"
}
#endif
#ifndef NO_CONTRACT
#undef PBT_PREFIX
#define PBT_PREFIX "contract."
namespace all_contract {
#include "p_contract.cpp"
}
#endif
#ifndef NO_TRACE
#undef PBT_PREFIX
#define PBT_PREFIX "trace."
namespace all_trace {
#include "p_trace.cpp"
}
#endif
#ifndef NO_SVD
#undef PBT_PREFIX
#define PBT_PREFIX "svd."
namespace all_svd {
#include "p_svd.cpp"
}
#endif
#ifndef NO_QR
#undef PBT_PREFIX
#define PBT_PREFIX "qr."
namespace all_qr {
#include "p_qr.cpp"
}
#endif
#ifndef NO_SCALAR
#undef PBT_PREFIX
#define PBT_PREFIX "scalar."
namespace all_scalar {
#include "p_scalar.cpp"
}
#endif
#ifndef NO_HISTORY
#undef PBT_PREFIX
#define PBT_PREFIX "history."
namespace all_history {
#include "p_history.cpp"
}
#endif
#ifndef NO_ACCESS
#undef PBT_PREFIX
#define PBT_PREFIX "access."
namespace all_access {
#include "p_access.cpp"
}
#endif
#ifndef NO_CONJ
#undef PBT_PREFIX
#define PBT_PREFIX "conj."
namespace all_conj {
#include "p_conj.cpp"
}
#endif
#ifndef NO_SHRINK
#undef PBT_PREFIX
#define PBT_PREFIX "shrink."
namespace all_shrink {
#include "p_shrink.cpp"
}
#endif
#ifndef NO_EXP
#undef PBT_PREFIX
#define PBT_PREFIX "exp."
namespace all_exp {
#include "p_exp.cpp"
}
#endif
#ifndef NO_MULTIPLE
#undef PBT_PREFIX
#define PBT_PREFIX "multiple."
namespace all_multiple {
#include "p_multiple.cpp"
}
#endif
#ifndef NO_BINARY
#undef PBT_PREFIX
#define PBT_PREFIX "binary."
namespace all_binary {
#include "p_binary.cpp"
}
#endif
#ifndef NO_TEXT
#undef PBT_PREFIX
#define PBT_PREFIX "text."
namespace all_text {
#include "p_text.cpp"
}
#endif
#ifndef NO_NAME
#undef PBT_PREFIX
#define PBT_PREFIX "name."
namespace all_name {
#include "p_name.cpp"
}
#endif
#ifndef NO_REFUSE
#undef PBT_PREFIX
#define PBT_PREFIX "refuse."
namespace all_refuse {
#include "p_refuse.cpp"
}
#endif
#ifndef NO_MIXED
#undef PBT_PREFIX
#define PBT_PREFIX "mixed."
namespace all_mixed {
#include "p_mixed.cpp"
}
#endif
