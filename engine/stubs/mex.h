/* Declarations of the MATLAB C Matrix / MEX API used by toolbox/src_mex (declarations only; nothing here is executed). */
#ifndef VERIF_STUB_MEX_H
#define VERIF_STUB_MEX_H
#include <cstddef>
#include <cstdint>
extern "C" {
typedef struct mxArray_tag mxArray;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS,
  mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS,
  mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
[[noreturn]] void mexErrMsgTxt(const char *);
void mexLock(void);
void mexUnlock(void);
int mexPrintf(const char *, ...);
bool mxIsChar(const mxArray *);
bool mxIsScalar(const mxArray *);
bool mxIsComplex(const mxArray *);
bool mxIsDouble(const mxArray *);
bool mxIsEmpty(const mxArray *);
bool mxIsNumeric(const mxArray *);
bool mxIsCell(const mxArray *);
bool mxIsLogicalScalar(const mxArray *);
bool mxIsLogicalScalarTrue(const mxArray *);
char *mxArrayToString(const mxArray *);
const char *mxGetClassName(const mxArray *);
mxClassID mxGetClassID(const mxArray *);
void *mxGetData(const mxArray *);
double *mxGetPr(const mxArray *);
double mxGetScalar(const mxArray *);
mwSize mxGetNumberOfDimensions(const mxArray *);
const mwSize *mxGetDimensions(const mxArray *);
size_t mxGetNumberOfElements(const mxArray *);
size_t mxGetM(const mxArray *);
size_t mxGetN(const mxArray *);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray *mxCreateDoubleScalar(double);
mxArray *mxCreateLogicalScalar(bool);
mxArray *mxCreateString(const char *);
mxArray *mxCreateCellMatrix(mwSize, mwSize);
mxArray *mxGetCell(const mxArray *, mwIndex);
void mxSetCell(mxArray *, mwIndex, mxArray *);
mxArray *mxCreateLogicalMatrix(mwSize, mwSize);
void mxFree(void *);
void mxDestroyArray(mxArray *);
}
#endif
