// Driver of the Http specification (spec/Http.tla): a connection whose bytes arrive in scripted pieces.
#include "vdrv.h"
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_http.h>
#include <sys/socket.h>

static int        pair[2] = { -1, -1 };
static Tcp        tcp;
static Readahead  ahead;
static Http       http;
static atomic_u64 sent, recvd;
static bool       is_open, reply;
static long long  lim;

// the stream
static uint8_t    stream[1 << 20];
static int        stream_size, stream_pos, seg_left, seg_max;
static uint64_t   seed;

static uint32_t
next_random(void)
{
	seed = seed * 6364136223846793005ull + 1442695040888963407ull;
	return seed >> 33;
}

ssize_t __real_read(int, void*, size_t);
ssize_t
__wrap_read(int fd, void* buf, size_t size)
{
	if (fd == -1 || fd != pair[0])
		return __real_read(fd, buf, size);
	if (stream_pos == stream_size)
		return 0;
	if (seg_left == 0)
		seg_left = 1 + next_random() % seg_max;
	if ((int)size > seg_left)
		size = seg_left;
	if ((int)size > stream_size - stream_pos)
		size = stream_size - stream_pos;
	memcpy(buf, stream + stream_pos, size);
	stream_pos += size;
	seg_left   -= size;
	return size;
}

static void
drop(void)
{
	if (! is_open)
		return;
	tcp_detach(&tcp);
	tcp_close(&tcp);
	close(pair[1]);
	pair[0] = pair[1] = -1;
	readahead_free(&ahead);
	http_free(&http);
	is_open = false;
}

static void
unhex(const char* s)
{
	for (; s[0] && s[1]; s += 2)
	{
		unsigned v;
		sscanf(s, "%2x", &v);
		stream[stream_size++] = v;
	}
}

static void
start(int size)
{
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, pair) == -1)
		_exit(4);
	if (write(pair[1], "x", 1) != 1) // always something to read
		_exit(4);
	tcp_init(&tcp, &sent, &recvd);
	tcp_set_fd(&tcp, pair[0]);
	tcp_attach(&tcp);
	readahead_init(&ahead, &tcp, size);
	http_init(&http);
	stream_pos = 0;
	seg_left   = 0;
	is_open    = true;
}

static void
out_part(const char* name, Str* s)
{
	v_out("\"%s\":", name);
	v_out_str(str_of(s) ? str_of(s) : "", str_size(s));
	v_out(",");
}

static uint32_t
crc(uint8_t* p, int size)
{
	uint32_t c = ~0u;
	for (; size > 0; p++, size--)
	{
		c ^= *p;
		for (int i = 0; i < 8; i++)
			c = (c >> 1) ^ ((c & 1) ? 0xEDB88320u : 0);
	}
	return ~c;
}

// read one message
static const char*
read_next(void)
{
	const char* res = "msg";
	http_reset(&http);
	volatile int what = 0;
	if (error_catch
	(
		if (http_read(&http, &ahead, !reply))
			what = 1;
		else if (lim)
		{
			if (http_read_content_limit(&http, &ahead, &http.content, lim))
				what = 2;
		} else
			http_read_content(&http, &ahead, &http.content);
	))
		res = "error";
	else if (what == 1)
		res = "eof";
	else if (what == 2)
		res = "limit";
	if (strcmp(res, "msg"))
		return res;
	out_part("method", &http.options[HTTP_METHOD]);
	out_part("url", &http.options[HTTP_URL]);
	out_part("version", &http.options[HTTP_VERSION]);
	out_part("code", &http.options[HTTP_CODE]);
	out_part("msg", &http.options[HTTP_MSG]);
	v_out("\"headers\":[");
	auto pos = (HttpHeader*)http.headers.start;
	for (int i = 0; i < http.headers_count; i++, pos++)
	{
		v_out("%s[", i ? "," : "");
		v_out_str(str_of(&pos->name), str_size(&pos->name));
		v_out(",");
		v_out_str(str_of(&pos->value), str_size(&pos->value));
		v_out("]");
		// found by name, whatever the case
		char name[1024];
		int  size = str_size(&pos->name);
		if (size < (int)sizeof(name))
		{
			for (int k = 0; k < size; k++)
				name[k] = (k + i) % 2 ? toupper(str_of(&pos->name)[k]) : tolower(str_of(&pos->name)[k]);
			auto at = http_find(&http, name, size);
			if (!at || !str_compare_case(&at->name, &pos->name))
				v_bad("header %d is not found by name", i);
		}
	}
	v_out("],\"size\":%d,\"crc\":%u,", buf_size(&http.content), crc(http.content.start, buf_size(&http.content)));
	return res;
}

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	v_out("{}");
}

void
vmod_end(void)
{
	drop();
	v_out("{}");
}

static void
arg(Opt* opt, int i)
{
	auto s = v_str(i);
	if (! strcmp(s, "-"))
		return;
	opt_string_set_raw(opt, (char*)s, strlen(s));
}

void
vmod_op(void)
{
	v_out("{");
	const char* res = "";
	if (v_is("connect"))
	{
		drop();
		reply   = v_int(1);
		lim     = v_int(2);
		seg_max = v_int(4);
		seed    = v_int(5);
		stream_size = 0;
		for (int i = 6; i < v_argc; i++)
			if (*v_str(i) != '-')
				unhex(v_str(i));
		start(v_int(3));
	} else
	if (v_is("next"))
		res = read_next();
	else
	if (v_is("compose"))
	{
		// compose REPLY AHEAD SEG SEED TIMES SIZE msg service db relation columns timezone format token content_type accept
		drop();
		reply   = v_int(1);
		lim     = 0;
		seg_max = v_int(3);
		seed    = v_int(4);
		long long size = v_int(6);
		Endpoint  endpoint;
		endpoint_init(&endpoint);
		arg(&endpoint.service, 8);
		arg(&endpoint.db, 9);
		arg(&endpoint.relation, 10);
		arg(&endpoint.columns, 11);
		arg(&endpoint.timezone, 12);
		arg(&endpoint.format, 13);
		arg(&endpoint.token, 14);
		arg(&endpoint.content_type, 15);
		arg(&endpoint.accept, 16);
		Http from;
		http_init(&from);
		stream_size = 0;
		for (int n = v_int(5); n > 0; n--)
		{
			Buf* buf;
			if (reply)
			{
				char msg[100];
				snprintf(msg, sizeof(msg), "%s", v_str(7));
				for (char* p = msg; *p; p++)
					if (*p == '~')
						*p = ' ';
				buf = http_begin_reply(&from, &endpoint, msg, strlen(msg), size);
			}
			else
				buf = http_begin_request(&from, &endpoint, size);
			http_end(buf);
			memcpy(stream + stream_size, buf->start, buf_size(buf));
			stream_size += buf_size(buf);
			for (int i = 0; i < size; i++)
				stream[stream_size++] = (i * 31 + n) & 0xff;
		}
		http_free(&from);
		endpoint_free(&endpoint);
		start(v_int(2));
	} else
		v_bad("unknown operation %s", v_argv[0]);
	v_out("\"res\":\"%s\",\"bad\":%s}", res, v_bad_json());
}
