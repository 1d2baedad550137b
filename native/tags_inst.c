/* The instrumentation tag macros of the current header as functions, for the verifier. */
#include "onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"
typedef unsigned long long T;
T vf_init(T t) { INIT_INSTRUMENT(t); return t; }
T vf_set_before(T t) { SET_INSTRUMENT_BEFORE_OP(t); return t; }
T vf_set_after(T t) { SET_INSTRUMENT_AFTER_OP(t); return t; }
T vf_clear_before(T t) { CLEAR_INSTRUMENT_BEFORE_OP(t); return t; }
T vf_clear_after(T t) { CLEAR_INSTRUMENT_AFTER_OP(t); return t; }
T vf_set_time(T t) { SET_INSTRUMENT_REPORT_TIME(t); return t; }
T vf_set_mem(T t) { SET_INSTRUMENT_REPORT_MEMORY(t); return t; }
T vf_set_init(T t) { SET_INSTRUMENT_INIT(t); return t; }
T vf_set_op(T t, T n) { SET_INSTRUMENT_OP_NAME_LEN(t, n); return t; }
T vf_set_node(T t, T n) { SET_INSTRUMENT_NODE_NAME_LEN(t, n); return t; }
int vf_is_before(T t) { return IS_INSTRUMENT_BEFORE_OP(t) ? 1 : 0; }
int vf_is_after(T t) { return IS_INSTRUMENT_AFTER_OP(t) ? 1 : 0; }
int vf_is_time(T t) { return IS_INSTRUMENT_REPORT_TIME(t) ? 1 : 0; }
int vf_is_mem(T t) { return IS_INSTRUMENT_REPORT_MEMORY(t) ? 1 : 0; }
int vf_is_init(T t) { return IS_INSTRUMENT_INIT(t) ? 1 : 0; }
T vf_get_op(T t) { return GET_INSTRUMENT_OP_NAME_LEN(t); }
T vf_get_node(T t) { return GET_INSTRUMENT_NODE_NAME_LEN(t); }
