// Driver of the Func specification (spec/Func.tla): the functions of SQL.
#include "vdrv.h"
#include <amelie_value.h>
#include <amelie_set.h>
#include <amelie_output.h>
#include <amelie_executor.h>
#include <amelie_func.h>
#include "value/update.c"
#include "value/like.c"
#include "func/fn.c"
#include "func/fn_string.c"
#include "func/fn_null.c"
#include "func/fn_math.c"
#include "func/fn_cast.c"
#include "func/fn_regexp.c"
#include "func/fn_json.c"
#include "func/fn_time.c"
#include "func/fn_vector.c"
#include "func/fn_misc.c"
#include "func/function_mgr.c"

#define MAX_ARGS 8
#define MAX_SITES 4
static FunctionMgr vmgr;
static Local       vlocal;
static struct
{
	Function* function;
	void*     context;
} vsites[MAX_SITES];

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
	function_mgr_init(&vmgr);
	fn_string_register(&vmgr);
	fn_null_register(&vmgr);
	fn_math_register(&vmgr);
	fn_cast_register(&vmgr);
	fn_regexp_register(&vmgr);
	fn_json_register(&vmgr);
	fn_time_register(&vmgr);
	fn_vector_register(&vmgr);
	fn_misc_register(&vmgr);
}

void
vmod_begin(void)
{
	memset(&vlocal, 0, sizeof(vlocal));
	memset(vsites, 0, sizeof(vsites));
	v_out("{}");
}

void
vmod_end(void)
{
	// the end of the query
	for (int i = 0; i < MAX_SITES; i++)
	{
		if (! vsites[i].context)
			continue;
		Fn fn;
		memset(&fn, 0, sizeof(fn));
		fn.function = vsites[i].function;
		fn.action   = FN_CLEANUP;
		fn.local    = &vlocal;
		fn.context  = &vsites[i].context;
		fn.function->function(&fn);
		if (vsites[i].context)
			v_bad("context of %s is kept", vsites[i].function->name.pos);
	}
	v_out("{\"bad\":%s}", v_bad_json());
}

static Buf*
exact(Buf* buf)
{
	// nothing behind the value is its own
	int size = buf_size(buf);
	buf->start = realloc(buf->start, size ? size : 1);
	buf->position = buf->start + size;
	buf->end = buf->start + (size ? size : 1);
	return buf;
}

static const char*
value_of(const char* s, Value* v)
{
	value_init(v);
	char* end;
	switch (*s++) {
	case 'N':
		return s;
	case 'i':
		value_set_int(v, strtoll(s, &end, 10));
		break;
	case 'b':
		value_set_bool(v, strtol(s, &end, 10));
		break;
	case 'd':
		value_set_double(v, strtol(s, &end, 10) / 2.0);
		break;
	case 't':
		value_set_timestamp(v, strtol(s, &end, 10));
		break;
	case 's':
	{
		auto buf = buf_create();
		buf_reserve(buf, strlen(s) / 2 + 1);
		unsigned c;
		while (isxdigit(s[0]) && sscanf(s, "%2x", &c) == 1)
		{
			buf_append_u8(buf, c);
			s += 2;
		}
		Str str;
		buf_str(exact(buf), &str);
		value_set_string(v, &str, buf);
		return s;
	}
	case 'I':
	{
		Interval iv;
		interval_init(&iv);
		iv.m = strtol(s, &end, 10);
		iv.d = strtol(end + 1, &end, 10);
		iv.us = strtol(end + 1, &end, 10);
		value_set_interval(v, &iv);
		break;
	}
	case 'v':
	{
		auto buf = buf_create();
		Vector head;
		memset(&head, 0, sizeof(head));
		buf_write(buf, &head, sizeof(head));
		int n = 0;
		while (*s == '/')
		{
			float f = strtol(s + 1, &end, 10) / 2.0;
			buf_write(buf, &f, sizeof(f));
			((Vector*)buf->start)->size = ++n;
			s = end;
		}
		value_set_vector_buf(v, exact(buf));
		return s;
	}
	case 'j':
	{
		auto buf = buf_create();
		encode_array(buf);
		while (*s == '/')
		{
			Value at;
			s = value_of(s + 1, &at);
			value_encode(&at, NULL, buf);
			value_free(&at);
		}
		encode_array_end(buf);
		value_set_json_buf(v, exact(buf));
		return s;
	}
	default:
		v_bad("unknown value %s", s - 1);
		return s;
	}
	return end;
}

static void
text_print(const char* pos, int size)
{
	v_out("\"s");
	for (int i = 0; i < size; i++)
		v_out("%02x", (uint8_t)pos[i]);
	v_out("\"");
}

static void
value_print(Value* v)
{
	switch (v->type) {
	case TYPE_NULL:
		v_out("[\"N\"]");
		break;
	case TYPE_INT:
		v_out("[\"i\",%" PRIi64 "]", v->integer);
		break;
	case TYPE_BOOL:
		v_out("[\"b\",%" PRIi64 "]", v->integer);
		break;
	case TYPE_TIMESTAMP:
		v_out("[\"t\",%" PRIi64 "]", v->integer);
		break;
	case TYPE_DOUBLE:
		if (isfinite(v->dbl))
			v_out("[\"d\",%.17g]", v->dbl * 2);
		else
			v_out("[\"d\",null]");
		break;
	case TYPE_STRING:
		v_out("[\"s\",");
		text_print(str_of(&v->string), str_size(&v->string));
		v_out("]");
		break;
	case TYPE_INTERVAL:
		v_out("[\"I\",%d,%d,%" PRIi64 "]", (int)v->interval.m, (int)v->interval.d, (int64_t)v->interval.us);
		break;
	case TYPE_VECTOR:
		v_out("[\"v\",[");
		for (uint32_t i = 0; i < v->vector->size; i++)
			v_out("%s%g", i ? "," : "", v->vector->value[i] * 2);
		v_out("]]");
		break;
	case TYPE_JSON:
	{
		auto pos = v->json;
		if (! json_is_array(pos))
		{
			v_out("[\"json\"]");
			break;
		}
		v_out("[\"j\",[");
		json_read_array(&pos);
		bool first = true;
		while (! json_read_array_end(&pos))
		{
			v_out("%s", first ? "" : ",");
			first = false;
			Value at;
			value_init(&at);
			value_decode(&at, pos, NULL);
			value_print(&at);
			value_free(&at);
			json_skip(&pos);
		}
		v_out("]]");
		if (pos != v->json + v->json_size)
			v_bad("the size of the array is wrong");
		break;
	}
	default:
		v_out("[\"?%d\"]", v->type);
		break;
	}
}

void
vmod_op(void)
{
	static Value argv[MAX_ARGS + 1];
	int  argc = 0;
	int  site = 0;
	for (int i = 1; i < v_argc; i++)
	{
		auto s = v_str(i);
		if (*s == '@')
			site = atoi(s + 1);
		else
			value_of(s, &argv[argc++]);
	}
	Str name;
	str_set_cstr(&name, v_str(0));
	auto function = function_mgr_find(&vmgr, &name);
	if (! function)
	{
		v_out("{\"bad\":[\"no such function\"]}");
		return;
	}
	Value result;
	value_init(&result);
	Fn fn;
	memset(&fn, 0, sizeof(fn));
	fn.argc     = argc;
	fn.argv     = argv;
	fn.result   = &result;
	fn.function = function;
	fn.action   = FN_EXECUTE;
	fn.local    = &vlocal;
	if (function->flags & FN_CONTEXT)
	{
		vsites[site].function = function;
		fn.context = &vsites[site].context;
	}
	// the arguments are the only values: behind them nothing may be read
	auto args = (Value*)malloc(sizeof(Value) * (argc ? argc : 1));
	memcpy(args, argv, sizeof(Value) * argc);
	fn.argv = args;
	v_out("{\"value\":");
	if (error_catch( function->function(&fn) ))
		v_out("[\"E\"]");
	else
		value_print(&result);
	value_free(&result);
	for (int i = 0; i < argc; i++)
		value_free(&args[i]);
	free(args);
	v_out(",\"bad\":%s}", v_bad_json());
}
