// DLB entry points, resolved per process copy.
#pragma once
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_talp.h"
#include "apis/dlb_errors.h"
}
#define DLB_FUNCS(X) X(DLB_Init) X(DLB_Finalize) X(DLB_PreInit) X(DLB_Enable) X(DLB_Disable) X(DLB_SetMaxParallelism) X(DLB_UnsetMaxParallelism) \
 X(DLB_CallbackSet) X(DLB_Lend) X(DLB_LendCpu) X(DLB_LendCpus) X(DLB_LendCpuMask) X(DLB_Reclaim) X(DLB_ReclaimCpu) X(DLB_ReclaimCpus) X(DLB_ReclaimCpuMask) \
 X(DLB_AcquireCpu) X(DLB_AcquireCpus) X(DLB_AcquireCpuMask) X(DLB_AcquireCpusInMask) X(DLB_Borrow) X(DLB_BorrowCpu) X(DLB_BorrowCpus) X(DLB_BorrowCpuMask) \
 X(DLB_BorrowCpusInMask) X(DLB_Return) X(DLB_ReturnCpu) X(DLB_ReturnCpuMask) X(DLB_PollDROM) X(DLB_PollDROM_Update) X(DLB_CheckCpuAvailability) X(DLB_Barrier) \
 X(DLB_BarrierAttach) X(DLB_BarrierDetach) X(DLB_BarrierNamedRegister) X(DLB_BarrierNamed) X(DLB_BarrierNamedAttach) X(DLB_BarrierNamedDetach) X(DLB_SetVariable) \
 X(DLB_GetVariable) X(DLB_PrintShmem) X(DLB_SetObserverRole) X(DLB_DROM_Attach) X(DLB_DROM_Detach) X(DLB_DROM_GetNumCpus) X(DLB_DROM_GetPidList) \
 X(DLB_DROM_GetProcessMask) X(DLB_DROM_SetProcessMask) X(DLB_DROM_PreInit) X(DLB_DROM_PostFinalize) X(DLB_DROM_RecoverStolenCpus) X(DLB_TALP_Attach) \
 X(DLB_TALP_Detach) X(DLB_TALP_GetNumCPUs) X(DLB_TALP_GetPidList) X(DLB_TALP_GetTimes) X(DLB_TALP_GetNodeTimes) X(DLB_TALP_QueryPOPNodeMetrics) \
 X(DLB_MonitoringRegionGetGlobal) X(DLB_MonitoringRegionRegister) X(DLB_MonitoringRegionReset) X(DLB_MonitoringRegionStart) X(DLB_MonitoringRegionStop) \
 X(DLB_MonitoringRegionReport) X(DLB_MonitoringRegionsUpdate) X(DLB_TALP_CollectPOPMetrics) X(DLB_TALP_CollectPOPNodeMetrics)
struct Api {
#define D(f) decltype(&::f) f;
  DLB_FUNCS(D)
#undef D
  void (*mu_testing_set_sys)(unsigned,unsigned,unsigned);
  void* h;
  void* sym(const char* n);
};
