#include "vdrv.h"

int   v_argc;
char* v_argv[V_ARGS];

static FILE* vout;
static char  line[1 << 20];
static char  cfg_line[1 << 12];
static int   cfg_count;
static char* cfg_key[64];
static char* cfg_val[64];
static char  bad[1 << 14];
static int   result = 2;
static int   main_argc;
static char** main_argv;

const char*
v_cfg(const char* key, const char* dflt)
{
	for (int i = 0; i < cfg_count; i++)
		if (! strcmp(cfg_key[i], key))
			return cfg_val[i];
	return dflt;
}

long
v_cfgi(const char* key, long dflt)
{
	auto s = v_cfg(key, NULL);
	return s ? strtol(s, NULL, 10) : dflt;
}

long long
v_int(int i)
{
	if (i >= v_argc)
	{
		fprintf(stderr, "driver: missing argument %d of %s\n", i, v_argv[0]);
		_exit(3);
	}
	return strtoll(v_argv[i], NULL, 10);
}

const char*
v_str(int i)
{
	if (i >= v_argc)
	{
		fprintf(stderr, "driver: missing argument %d of %s\n", i, v_argv[0]);
		_exit(3);
	}
	return v_argv[i];
}

bool
v_is(const char* op)
{
	return ! strcmp(v_argv[0], op);
}

void
v_out(const char* fmt, ...)
{
	va_list args;
	va_start(args, fmt);
	vfprintf(vout, fmt, args);
	va_end(args);
}

void
v_out_str(const char* data, size_t size)
{
	fputc('"', vout);
	for (size_t i = 0; i < size; i++)
	{
		unsigned char c = data[i];
		if (c == '"' || c == '\\')
			fprintf(vout, "\\%c", c);
		else
		if (c < 0x20 || c >= 0x7f)
			fprintf(vout, "\\u%04x", c);
		else
			fputc(c, vout);
	}
	fputc('"', vout);
}

void
v_flush(void)
{
	// what a line did not report stands in its place
	if (bad[0])
		v_out("\x1e{\"bad\":%s}", v_bad_json());
	fputc('\n', vout);
	fflush(vout);
}

void
v_bad(const char* fmt, ...)
{
	size_t at = strlen(bad);
	if (at > sizeof(bad) - 512)
		return;
	if (at)
		bad[at++] = ',';
	char text[400];
	va_list args;
	va_start(args, fmt);
	vsnprintf(text, sizeof(text), fmt, args);
	va_end(args);
	for (char* p = text; *p; p++)
		if (*p == '"' || *p == '\\' || (unsigned char)*p < 0x20 || (unsigned char)*p > 0x7e)
			*p = '_';
	snprintf(bad + at, sizeof(bad) - at, "\"%s\"", text);
}

const char*
v_bad_json(void)
{
	static char out[1 << 14];
	snprintf(out, sizeof(out), "[%.16000s]", bad);
	bad[0] = 0;
	return out;
}

const char*
v_error_text(void)
{
	static char text[2048];
	auto buf = &am_self()->error.text;
	snprintf(text, sizeof(text), "%.*s", (int)buf_size(buf), (char*)buf->start);
	return text;
}

static void
v_task(void* arg)
{
	unused(arg);
	logger_set_enable(&runtime()->logger, false);
	if (error_catch( vmod_main(main_argc, main_argv) ))
	{
		fprintf(stderr, "driver: unexpected error in main: %s\n", v_error_text());
		return;
	}
	while (fgets(line, sizeof(line), stdin))
	{
		v_argc = 0;
		char* save = NULL;
		for (char* t = strtok_r(line, " \n", &save); t; t = strtok_r(NULL, " \n", &save))
			if (v_argc < V_ARGS)
				v_argv[v_argc++] = t;
		if (v_argc == 0)
			continue;
		bool on_error;
		// an operation that does not return is a failure
		alarm(15);
		if (v_is("begin"))
		{
			cfg_count = 0;
			char* at = cfg_line;
			for (int i = 1; i < v_argc && cfg_count < 64; i++)
			{
				size_t len = strlen(v_argv[i]);
				memcpy(at, v_argv[i], len + 1);
				char* eq = strchr(at, '=');
				if (eq) {
					*eq = 0;
					cfg_key[cfg_count] = at;
					cfg_val[cfg_count] = eq + 1;
					cfg_count++;
				}
				at += len + 1;
			}
			on_error = error_catch( vmod_begin() );
		} else
		if (v_is("end"))
			on_error = error_catch( vmod_end() );
		else
			on_error = error_catch( vmod_op() );
		if (on_error)
		{
			v_out("{\"escaped_error\":");
			v_out_str(v_error_text(), strlen(v_error_text()));
			v_out("}");
		}
		alarm(0);
		v_flush();
	}
	result = 0;
}

static void
v_main(void* arg, int argc, char** argv)
{
	unused(arg);
	main_argc = argc;
	main_argv = argv;

	BufMgr buf_mgr;
	buf_mgr_init(&buf_mgr);
	defer(buf_mgr_free, &buf_mgr);

	Task task;
	task_init(&task);
	defer(task_free, &task);
	if (task_create_nothrow(&task, "vdrv", v_task, NULL, am_runtime, NULL, NULL, NULL,
	                        &buf_mgr) == -1)
		error("task create error");
	task_wait(&task);
}

int
main(int argc, char* argv[])
{
	// keep the protocol apart from anything the code prints
	vout = fdopen(dup(1), "w");
	setvbuf(vout, NULL, _IOFBF, 1 << 16);
	dup2(2, 1);
	Runtime runtime;
	runtime_init(&runtime);
	runtime_start(&runtime, v_main, NULL, argc, argv);
	fflush(vout);
	_exit(result);
}
