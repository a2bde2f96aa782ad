#ifndef VERIF_CONC_H
#define VERIF_CONC_H
// Interface between the instrumented thread bodies (conc_body.cpp) and the
// controlled scheduler (conc.cpp).
enum OpKind
{
    op_set,   // arg -> returned previous value
    op_get,   // -> returned value
    op_system,
    op_null,
    op_check  // free-form observation; ok != 0 when it was as required
};
extern "C"
{
    // thread t begins / ends an operation
    void conc_begin(int kind, const void* arg);
    void conc_end(const void* result);
    void conc_require(int ok, const char* what);
    const void* conc_initial();  // default resource when the threads start
}
struct Program
{
    const char* name;
    int nthreads;
    void (*setup)();        // before the threads
    void (*body[4])();      // one per thread
    void (*finish)();       // after all threads
    int tier;
    bool fresh = false;     // the library is not used before the threads
    int bound = -1;         // at most so many preemptions (one more when
                            // thorough); -1: no bound
};
const Program* conc_programs(int& n);
#endif
