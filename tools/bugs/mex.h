// a small stand-in for the MATLAB interface, enough to run the commands
#ifndef DEMO_MEX_H
#define DEMO_MEX_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
typedef size_t mwSize;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS,
  mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS,
  mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
struct mxArray { mwSize dims[2]; mxClassID cls; std::vector<double> raw; std::string text; };
struct MexError { std::string what; };
static inline mxArray *mk(mwSize r, mwSize c, mxClassID k) { mxArray *a = new mxArray; a->dims[0] = r; a->dims[1] = c; a->cls = k; a->raw.assign(r * c + 1, 0.0); return a; }
[[noreturn]] static inline void mexErrMsgTxt(const char *m) { throw MexError{m}; }
static inline void mexLock() {}
static inline void mexUnlock() {}
static inline bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
static inline bool mxIsScalar(const mxArray *a) { return a->dims[0] * a->dims[1] == 1; }
static inline bool mxIsComplex(const mxArray *) { return false; }
static inline bool mxIsLogicalScalar(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
static inline bool mxIsLogicalScalarTrue(const mxArray *a) { return a->raw[0] != 0; }
static inline char *mxArrayToString(const mxArray *a) { return strdup(a->text.c_str()); }
static inline const char *mxGetClassName(const mxArray *) { return "?"; }
static inline mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
static inline void *mxGetData(const mxArray *a) { return (void *)a->raw.data(); }
static inline double *mxGetPr(const mxArray *a) { return (double *)a->raw.data(); }
static inline double mxGetScalar(const mxArray *a) { return a->raw[0]; }
static inline mwSize mxGetNumberOfDimensions(const mxArray *) { return 2; }
static inline const mwSize *mxGetDimensions(const mxArray *a) { return a->dims; }
static inline size_t mxGetNumberOfElements(const mxArray *a) { return a->dims[0] * a->dims[1]; }
static inline size_t mxGetM(const mxArray *a) { return a->dims[0]; }
static inline size_t mxGetN(const mxArray *a) { return a->dims[1]; }
static inline mxArray *mxCreateNumericMatrix(mwSize r, mwSize c, mxClassID k, mxComplexity) { return mk(r, c, k); }
static inline mxArray *mxCreateLogicalScalar(bool b) { mxArray *a = mk(1, 1, mxLOGICAL_CLASS); a->raw[0] = b; return a; }
static inline mxArray *text(std::string t) { mxArray *a = mk(1, t.size(), mxCHAR_CLASS); a->text = t; return a; }
static inline mxArray *number(double x) { mxArray *a = mk(1, 1, mxDOUBLE_CLASS); a->raw[0] = x; return a; }
static inline mxArray *matrix(mwSize r, mwSize c, std::vector<double> v) { mxArray *a = mk(r, c, mxDOUBLE_CLASS); for (size_t k = 0; k < v.size(); ++k) a->raw[k] = v[k]; return a; }
#endif
