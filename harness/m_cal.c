// Driver of the Cal specification (spec/Cal.tla): dates, timestamps, intervals,
// time zones and UUIDs.
#include "vdrv.h"
#include <amelie_runtime>

static char      texts[16][512];
static int       texts_used;
static Timezone* zones[64];
static char      zones_text[64][256];
static int       zones_count;

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
	// as the server does
	setenv("TZ", "UTC", true);
	tzset();
}

void
vmod_begin(void)
{
	v_out("{}");
}

void
vmod_end(void)
{
	v_out("{}");
}

// text arguments are hexadecimal
static char*
text(int i)
{
	const char* s = v_str(i);
	char* t = texts[texts_used++ % 16];
	int n = 0;
	for (; *s != '-' && s[0] && s[1] && n < 500; s += 2)
	{
		unsigned v;
		sscanf(s, "%2x", &v);
		t[n++] = v;
	}
	t[n] = 0;
	return t;
}

// a copy of exactly its size: reading past it is an error
static char*
exact(int i, Str* str)
{
	char* t = text(i);
	int n = strlen(t);
	char* copy = malloc(n ? n : 1);
	memcpy(copy, t, n);
	str_set(str, copy, n);
	return copy;
}

static void
put32(FILE* f, uint32_t v)
{
	v = htonl(v);
	fwrite(&v, 4, 1, f);
}

// offsets/day.second.index,...
static Timezone*
zone(int i)
{
	char* t = text(i);
	for (int k = 0; k < zones_count; k++)
		if (! strcmp(zones_text[k], t))
			return zones[k];
	if (zones_count == 64)
	{
		for (int k = 0; k < 64; k++)
			timezone_free(zones[k]);
		zones_count = 0;
	}
	int      offs[64], noffs = 0, n = 0;
	uint32_t when[64];
	uint8_t  type[64];
	char *p = t;
	while (*p && *p != '/')
	{
		offs[noffs++] = strtol(p, &p, 10);
		if (*p == ',')
			p++;
	}
	if (*p)
		p++;
	while (*p)
	{
		int64_t day = strtol(p, &p, 10);
		int64_t sec = strtol(p + 1, &p, 10);
		type[n] = strtol(p + 1, &p, 10);
		when[n++] = day * 86400 + sec;
		if (*p == ',')
			p++;
	}
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/tz%d", v_cfg("dir", "/tmp"), (int)getpid());
	FILE* f = fopen(path, "w");
	if (! f)
	{
		v_bad("cannot write a zone file");
		return NULL;
	}
	fwrite("TZif", 4, 1, f);
	fputc(0, f);
	for (int k = 0; k < 15; k++)
		fputc(0, f);
	put32(f, 0);
	put32(f, 0);
	put32(f, 0);
	put32(f, n);
	put32(f, noffs);
	put32(f, 4);
	for (int k = 0; k < n; k++)
		put32(f, when[k]);
	fwrite(type, n, 1, f);
	for (int k = 0; k < noffs; k++)
	{
		put32(f, offs[k]);
		fputc(0, f);
		fputc(0, f);
	}
	fwrite("LMT", 4, 1, f);
	fclose(f);
	Str name;
	str_set_cstr(&name, "test");
	Timezone* volatile tz = NULL;
	if (error_catch( tz = timezone_create(&name, path) ) || !tz)
		v_bad("the zone file is not read");
	unlink(path);
	if (tz)
	{
		zones[zones_count] = tz;
		strcpy(zones_text[zones_count++], t);
	}
	return tz;
}

static int64_t
moment(int i)
{
	return (v_int(i) * 86400 + v_int(i + 1)) * 1000000 + v_int(i + 2);
}

static void
out_moment(bool ok, int64_t t, const char* extra)
{
	int64_t sec = t / 1000000;
	if (ok && t < 0)
		v_bad("a moment before the epoch");
	v_out("{\"ok\":%s,\"v\":[%" PRIi64 ",%" PRIi64 ",%" PRIi64 "]%s,\"bad\":%s}", ok ? "true" : "false",
	      ok ? sec / 86400 : 0, ok ? sec % 86400 : 0, ok ? t % 1000000 : 0, extra, v_bad_json());
}

static void
out_int(bool ok, int64_t n)
{
	v_out("{\"ok\":%s,\"n\":%" PRIi64 ",\"bad\":%s}", ok ? "true" : "false", ok ? n : 0, v_bad_json());
}

static void
interval(int i, Interval* iv)
{
	iv->m  = strtoll(text(i), NULL, 10);
	iv->d  = strtoll(text(i + 1), NULL, 10);
	iv->us = strtoll(text(i + 2), NULL, 10);
}

static void
out_interval(bool ok, Interval* iv, const char* t)
{
	v_out("{\"ok\":%s,\"iv\":[\"%d\",\"%d\",\"%" PRIi64 "\"],\"t\":\"%s\",\"bad\":%s}", ok ? "true" : "false",
	      ok ? iv->m : 0, ok ? iv->d : 0, ok ? iv->us : 0, t, v_bad_json());
}

void
vmod_op(void)
{
	Str  str;
	volatile int64_t n = 0;
	bool ok;
	static char out[512];
	static Timestamp ts;
	static Interval  a, b, r;
	if (v_is("dset"))
	{
		char* copy = exact(1, &str);
		ok = !error_catch( n = date_set(&str) );
		out_int(ok, n);
		free(copy);
	} else
	if (v_is("dget"))
	{
		volatile int size = 0;
		ok = !error_catch( size = date_get(v_int(1), out, sizeof(out)) );
		v_out("{\"ok\":%s,\"t\":\"%.*s\"", ok ? "true" : "false", ok ? (int)size : 0, out);
		if (ok)
		{
			str_set(&str, out, size);
			if (error_catch( n = date_set(&str) ) || n != v_int(1))
				v_bad("%.*s is read back as day %" PRIi64, (int)size, out, n);
		}
		v_out(",\"bad\":%s}", v_bad_json());
	} else
	if (v_is("dyear"))
	{
		// days of the year, joined into runs of days of a month
		char month[16] = "";
		int  first = 0, last = 0;
		bool any = false;
		v_out("{\"ok\":true,\"runs\":[");
		for (int i = 0; i <= v_int(2); i++)
		{
			char day[64] = "";
			if (i < v_int(2))
			{
				int size = date_get(v_int(1) + i, day, sizeof(day));
				day[size] = 0;
				str_set(&str, day, size);
				int back = date_set(&str);
				if (back != v_int(1) + i)
					v_bad("day %d is written as %s and read as day %d", (int)v_int(1) + i, day, back);
			}
			int d = atoi(day + (strlen(day) == 10 ? 8 : 0));
			if (i < v_int(2) && !strncmp(day, month, 7) && day[7] == '-' && d == last + 1) {
				last = d;
				continue;
			}
			if (*month)
			{
				v_out("%s\"%s %d..%d\"", any ? "," : "", month, first, last);
				any = true;
			}
			memcpy(month, day, 7);
			month[7] = 0;
			first = last = d;
		}
		v_out("],\"bad\":%s}", v_bad_json());
	} else
	if (v_is("dadd")) {
		ok = !error_catch( n = date_add(v_int(1), v_int(2)) );
		out_int(ok, n);
	} else
	if (v_is("dsub")) {
		ok = !error_catch( n = date_sub(v_int(1), v_int(2)) );
		out_int(ok, n);
	} else
	if (v_is("dextract"))
	{
		char* copy = exact(2, &str);
		ok = !error_catch( n = date_extract(v_int(1), &str) );
		out_int(ok, n);
		free(copy);
	} else
	if (v_is("tset"))
	{
		Timezone* tz = zone(1);
		char* copy = exact(2, &str);
		timestamp_init(&ts);
		ok = !error_catch( timestamp_set(&ts, &str); n = timestamp_get_unixtime(&ts, tz) );
		out_moment(ok, n, "");
		free(copy);
	} else
	if (v_is("tget"))
	{
		Timezone* tz = zone(1);
		volatile int size = 0;
		char extra[600];
		ok = !error_catch( size = timestamp_get(moment(2), tz, out, sizeof(out)) );
		snprintf(extra, sizeof(extra), ",\"t\":\"%.*s\"", ok ? (int)size : 0, out);
		if (ok)
		{
			str_set(&str, out, size);
			timestamp_init(&ts);
			ok = !error_catch( timestamp_set(&ts, &str); n = timestamp_get_unixtime(&ts, tz) );
		}
		out_moment(ok, n, extra);
	} else
	if (v_is("tadd") || v_is("tsub"))
	{
		r.m  = v_int(4);
		r.d  = v_int(5);
		r.us = (v_int(7) * 86400 + v_int(8)) * 1000000 + v_int(9);
		if (v_int(6))
			r.us = -r.us;
		timestamp_init(&ts);
		bool add = v_is("tadd");
		ok = !error_catch(
			timestamp_set_unixtime(&ts, moment(1));
			if (add)
				timestamp_add(&ts, &r);
			else
				timestamp_sub(&ts, &r);
			n = timestamp_get_unixtime(&ts, NULL);
		);
		out_moment(ok, n, "");
	} else
	if (v_is("ttrunc"))
	{
		char* copy = exact(4, &str);
		timestamp_init(&ts);
		ok = !error_catch(
			timestamp_set_unixtime(&ts, moment(1));
			timestamp_trunc(&ts, &str);
			n = timestamp_get_unixtime(&ts, NULL);
		);
		out_moment(ok, n, "");
		free(copy);
	} else
	if (v_is("textract"))
	{
		Timezone* tz = zone(1);
		char* copy = exact(5, &str);
		ok = !error_catch( n = timestamp_extract(moment(2), tz, &str) );
		out_int(ok, n);
		free(copy);
	} else
	if (v_is("tdate")) {
		ok = !error_catch( n = timestamp_date(moment(1)) );
		out_int(ok, n);
	} else
	if (v_is("tofdate"))
	{
		timestamp_init(&ts);
		ok = !error_catch( timestamp_set_date(&ts, v_int(1)); n = timestamp_get_unixtime(&ts, NULL) );
		out_moment(ok, n, "");
	} else
	if (v_is("iset"))
	{
		char* copy = exact(1, &str);
		interval_init(&a);
		ok = !error_catch( interval_set(&a, &str) );
		out_interval(ok, &a, "");
		free(copy);
	} else
	if (v_is("iget"))
	{
		interval(1, &a);
		int size = interval_get(&a, out, sizeof(out));
		out[size] = 0;
		interval_init(&b);
		char* copy = malloc(size ? size : 1);
		memcpy(copy, out, size);
		str_set(&str, copy, size);
		ok = !error_catch( interval_set(&b, &str) );
		out_interval(ok, &b, out);
		free(copy);
	} else
	if (v_is("iadd") || v_is("isub") || v_is("icompare"))
	{
		interval(1, &a);
		interval(4, &b);
		if (v_is("icompare"))
		{
			n = interval_compare(&a, &b);
			out_int(true, n < 0 ? -1 : n > 0);
			return;
		}
		bool add = v_is("iadd");
		interval_init(&r);
		ok = !error_catch(
			if (add)
				interval_add(&r, &a, &b);
			else
				interval_sub(&r, &a, &b);
		);
		out_interval(ok, &r, "");
	} else
	if (v_is("ineg"))
	{
		interval(1, &a);
		interval_init(&r);
		ok = !error_catch( interval_neg(&r, &a) );
		out_interval(ok, &r, "");
	} else
	if (v_is("itrunc"))
	{
		interval(1, &a);
		char* copy = exact(4, &str);
		ok = !error_catch( interval_trunc(&a, &str) );
		out_interval(ok, &a, "");
		free(copy);
	} else
	if (v_is("iextract"))
	{
		interval(1, &a);
		char* copy = exact(4, &str);
		volatile uint64_t v = 0;
		ok = !error_catch( v = interval_extract(&a, &str) );
		v_out("{\"ok\":%s,\"b\":\"%" PRIi64 "\",\"bad\":%s}", ok ? "true" : "false", ok ? (int64_t)v : 0, v_bad_json());
		free(copy);
	} else
	if (v_is("uset"))
	{
		char* copy = exact(1, &str);
		static Uuid uuid, back;
		uuid_init(&uuid);
		uuid_init(&back);
		ok = !error_catch( uuid_set(&uuid, &str) );
		*out = 0;
		if (ok)
		{
			uuid_get(&uuid, out, sizeof(out));
			Str again;
			str_set_cstr(&again, out);
			if (error_catch( uuid_set(&back, &again) ) || !uuid_is(&uuid, &back) || uuid_compare(&uuid, &back))
				v_bad("%s is not read back", out);
			char start[16];
			uuid_get_short(&uuid, start, sizeof(start));
			if (strncmp(start, out, 8) || start[8])
				v_bad("%s is the short form of %s", start, out);
		}
		v_out("{\"ok\":%s,\"t\":\"%s\",\"bad\":%s}", ok ? "true" : "false", out, v_bad_json());
		free(copy);
	} else
	{
		v_bad("unknown operation");
		v_out("{\"bad\":%s}", v_bad_json());
	}
}
