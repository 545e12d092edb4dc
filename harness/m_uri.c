// Driver of the Uri specification (spec/Uri.tla).
#include "vdrv.h"
#include <amelie_runtime>
#include <amelie_user.h>
#include <amelie_http.h>

static Endpoint one, other;
static bool     defined;

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	endpoint_init(&one);
	endpoint_init(&other);
	defined = true;
	v_out("{}");
}

void
vmod_end(void)
{
	endpoint_free(&one);
	endpoint_free(&other);
	v_out("{}");
}

// text of exactly its size and a zero, as options keep it
static char*
unhex(const char* s, int* size)
{
	char* data = malloc(strlen(s) / 2 + 1);
	*size = 0;
	for (; *s != '-' && s[0] && s[1]; s += 2)
	{
		unsigned v;
		sscanf(s, "%2x", &v);
		data[(*size)++] = v;
	}
	data[*size] = 0;
	return data;
}

static bool
parse(Endpoint* e, const char* data, int size, bool target)
{
	Str str;
	str_set(&str, (char*)data, size);
	if (target)
		return error_catch( uri_parse_endpoint(e, &str) );
	return error_catch( uri_parse(e, &str) );
}

static void
same(Endpoint* a, Endpoint* b, const char* what, bool target)
{
	struct { Opt *x, *y; const char* name; int on; } list[] = {
		{ &a->user, &b->user, "user", 1 }, { &a->secret, &b->secret, "secret", 1 }, { &a->host, &b->host, "host", 2 },
		{ &a->db, &b->db, "db", 0 }, { &a->relation, &b->relation, "relation", 0 }, { &a->columns, &b->columns, "columns", 0 },
		{ &a->timezone, &b->timezone, "timezone", 0 }, { &a->format, &b->format, "format", 0 },
		{ &a->content_type, &b->content_type, "content_type", 3 }, { &a->accept, &b->accept, "accept", 3 },
		{ &a->tls_capath, &b->tls_capath, "tls_capath", 3 }, { &a->tls_ca, &b->tls_ca, "tls_ca", 3 }, { &a->tls_cert, &b->tls_cert, "tls_cert", 3 },
		{ &a->tls_key, &b->tls_key, "tls_key", 3 }, { &a->tls_server, &b->tls_server, "tls_server", 3 } };
	bool amelie = a->proto.integer == PROTO_AMELIE;
	for (int i = 0; i < (int)(sizeof(list) / sizeof(*list)); i++)
	{
		if (target && list[i].on)
			continue;
		if ((list[i].on == 2 && amelie) || (list[i].on == 3 && !amelie))
			continue;
		Str *x = &list[i].x->string, *y = &list[i].y->string;
		if (! str_compare(x, y))
			v_bad("%s: %s is '%.*s', was '%.*s'", what, list[i].name, (int)str_size(y), str_of(y), (int)str_size(x), str_of(x));
	}
	if (target)
		return;
	if (a->proto.integer != b->proto.integer)
		v_bad("%s: another protocol", what);
	if (!amelie && a->port.integer != b->port.integer)
		v_bad("%s: another port", what);
}

static void
all_same(Endpoint* a, Endpoint* b, const char* what)
{
	auto it = b->opts.list.next;
	list_foreach(&a->opts.list)
	{
		auto x = list_at(Opt, link);
		auto y = container_of(it, Opt, link);
		if (x->type == OPT_STRING ? !str_compare(&x->string, &y->string) : x->integer != y->integer)
			v_bad("%s: %.*s differs", what, (int)str_size(&x->name), str_of(&x->name));
		it = it->next;
	}
}

void
vmod_op(void)
{
	bool target = v_is("target");
	int  size;
	char* data = unhex(v_str(1), &size);
	endpoint_reset(&one);
	bool err = parse(&one, data, size, target);
	memset(data, 'x', size);
	free(data);
	v_out("{\"ok\":%s,\"str\":{", err ? "false" : "true");
	bool first = true;
	if (! err)
	{
		list_foreach(&one.opts.list)
		{
			auto opt = list_at(Opt, link);
			if (opt->type != OPT_STRING || opt == &one.uri || opt_string_empty(opt))
				continue;
			v_out("%s\"%.*s\":", first ? "" : ",", (int)str_size(&opt->name), str_of(&opt->name));
			v_out_str(str_of(&opt->string), str_size(&opt->string));
			first = false;
		}
	}
	v_out("},\"proto\":%d,\"port\":\"%lld\",\"debug\":%s,", (int)one.proto.integer, (long long)one.port.integer, one.debug.integer ? "true" : "false");

	// written and read, copied
	if (! err)
	{
		endpoint_reset(&other);
		endpoint_copy(&other, &one);
		all_same(&one, &other, "copy");
		Buf* buf = buf_create();
		endpoint_write(&one, buf);
		endpoint_reset(&other);
		uint8_t* pos = buf->start;
		endpoint_read(&other, &pos);
		all_same(&one, &other, "stored");
		buf_free(buf);
	}

	// exported and parsed
	if (!err && v_int(2))
	{
		Buf* buf = buf_create();
		uri_export(&one, buf);
		buf_write(buf, "", 1);
		endpoint_reset(&other);
		if (parse(&other, (char*)buf->start, buf_size(buf) - 1, false))
			v_bad("exported as '%s', which does not parse", (char*)buf->start);
		else
			same(&one, &other, "exported", false);
		buf_free(buf);
	}

	// requested and parsed
	if (!err && v_int(3))
	{
		Http http;
		http_init(&http);
		Buf* buf = http_begin_request(&http, &one, 0);
		buf_write(buf, "", 1);
		char* at  = strchr((char*)buf->start, ' ');
		char* end = at ? strstr(at + 1, " HTTP/1.1\r\n") : NULL;
		if (! end)
			v_bad("no request line");
		else
		{
			*end = 0;
			if (strchr(at + 1, ' ') || strchr(at + 1, '\r'))
				v_bad("the request line is broken");
			endpoint_reset(&other);
			if (parse(&other, at + 1, end - at - 1, true))
				v_bad("requested as '%s', which does not parse", at + 1);
			else
				same(&one, &other, "requested", true);
		}
		http_free(&http);
	}
	v_out("\"bad\":%s}", v_bad_json());
}
