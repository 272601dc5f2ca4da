// The part of the clBLAS interface that CN24 uses, for the simulated device.
#pragma once
#include <CL/cl.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { clblasRowMajor, clblasColumnMajor } clblasOrder;
typedef enum { clblasNoTrans, clblasTrans, clblasConjTrans } clblasTranspose;
typedef cl_int clblasStatus;
clblasStatus clblasSetup(void);
void clblasTeardown(void);
clblasStatus clblasSgemm(clblasOrder order, clblasTranspose transA, clblasTranspose transB, size_t M, size_t N, size_t K, cl_float alpha,
                         const cl_mem A, size_t offA, size_t lda, const cl_mem B, size_t offB, size_t ldb, cl_float beta, cl_mem C, size_t offC, size_t ldc,
                         cl_uint numCommandQueues, cl_command_queue* commandQueues, cl_uint numEventsInWaitList, const cl_event* eventWaitList, cl_event* events);
clblasStatus clblasSgemv(clblasOrder order, clblasTranspose transA, size_t M, size_t N, cl_float alpha, const cl_mem A, size_t offA, size_t lda,
                         const cl_mem x, size_t offx, int incx, cl_float beta, cl_mem y, size_t offy, int incy,
                         cl_uint numCommandQueues, cl_command_queue* commandQueues, cl_uint numEventsInWaitList, const cl_event* eventWaitList, cl_event* events);
#ifdef __cplusplus
}
#endif
