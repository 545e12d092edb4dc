#pragma once
// Common part of the conformance drivers: a line protocol on stdin/stdout.
//
//   begin <key=value ...>   start a behaviour (fresh state)
//   <op> <args ...>         execute one operation, print one line of JSON
//   end                     finish the behaviour, print "{}" (final checks)
//
// Every module defines: vmod_begin(), vmod_op(), vmod_end().
#include <amelie_test>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

#define V_ARGS 512
extern int         v_argc;
extern char*       v_argv[V_ARGS];

// configuration of the current behaviour (key=value)
const char* v_cfg(const char* key, const char* dflt);
long        v_cfgi(const char* key, long dflt);

// arguments of the current operation
long long   v_int(int i);
const char* v_str(int i);
bool        v_is(const char* op);

// output of the current operation (one json line)
void v_out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void v_out_str(const char* data, size_t size); // quoted json string
void v_flush(void);

// diagnostics inside an observation: collected, printed as "bad":[...]
void v_bad(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
const char* v_bad_json(void);

const char* v_error_text(void);

// module
void vmod_main(int argc, char** argv); // once, in the task
void vmod_begin(void);
void vmod_op(void);
void vmod_end(void);
