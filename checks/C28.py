# technique: stateless exploration of the real parallel loops under a controlled OpenMP runtime with happens-before race detection at every memory access: all orders of synchronisations within a preemption bound, all single preemptions of small loops, every thread number up to one thread per iteration
# note: an execution without unordered conflicting accesses represents all interleavings with the same order of synchronisations, so the enumeration of those orders decides every schedule of the explored loops
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C28", "model_checking")
c.rule = "one schedule = one execution of a routine with a thread number and an order of switches; transitions = executions; evaluations = memory accesses checked for an unordered conflicting access of another thread"
c.assumptions = ["accesses of non-instrumented libraries to program data are seen only for the transforms of FFTW", "nested parallel regions have one thread (the default of OpenMP)"]
W = ["memcpy", "memmove", "memset", "fftw_plan_dft_r2c_1d", "fftw_plan_dft_c2r_1d", "fftw_plan_r2r_1d", "fftw_destroy_plan",
     "fftw_execute_dft_r2c", "fftw_execute_dft_c2r", "fftw_execute_r2r"]
c.harness("omp", "c28_omp.c", extra=("-Wl,--wrap=exit,--wrap=abort", "-Wl," + ",".join("--wrap=" + w for w in W)))
c.finish()
