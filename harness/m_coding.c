// Driver of the Coding specification (spec/Coding.tla): base64, CRC-32C and
// compression.
#include "vdrv.h"
#include <amelie_runtime>

#define MAX 64
static CodecCache cache;
static Codec*     codecs[MAX];
static Buf*       streams[MAX];
static int        codecs_count;
static Buf*       blobs[MAX];
static int        blobs_size[MAX];
static int        blobs_count;
static int        fed[MAX];

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	codec_cache_init(&cache);
	codecs_count = 0;
	blobs_count = 0;
	v_out("{}");
}

void
vmod_end(void)
{
	for (int i = 0; i < codecs_count; i++)
	{
		if (codecs[i])
			codec_free(codecs[i]);
		if (streams[i])
			buf_free(streams[i]);
	}
	for (int i = 0; i < blobs_count; i++)
		buf_free(blobs[i]);
	codec_cache_free(&cache);
	v_out("{}");
}

static uint8_t*
unhex(int arg, int* size)
{
	const char* s = v_str(arg);
	uint8_t* data = malloc(strlen(s) / 2 + 1);
	*size = 0;
	for (; *s != '-' && s[0] && s[1]; s += 2)
	{
		unsigned v;
		sscanf(s, "%2x", &v);
		data[(*size)++] = v;
	}
	return realloc(data, *size ? *size : 1);
}

static void
hex(uint8_t* p, int n)
{
	for (int i = 0; i < n; i++)
		v_out("%02x", p[i]);
}

// named data, see checks/c_coding.py
static uint8_t*
data(int pattern, uint32_t seed, int size)
{
	uint8_t* p = malloc(size ? size : 1);
	uint32_t x = seed * 2654435761u + 12345;
	for (int i = 0; i < size; i++)
	{
		if (pattern == 0)
			p[i] = seed;
		else
		if (pattern == 1)
			p[i] = seed + i;
		else {
			x = x * 1664525u + 1013904223u;
			p[i] = pattern == 2 || i % 7 == 0 ? x >> 24 : "abcdefghijklm"[i % 13];
		}
	}
	return p;
}

static void
out_ok(bool ok)
{
	v_out("{\"ok\":%s,\"bad\":%s}", ok ? "true" : "false", v_bad_json());
}

void
vmod_op(void)
{
	if (v_is("enc") || v_is("dec"))
	{
		bool url = ! strcmp(v_str(1), "base64url");
		int size;
		uint8_t* in = unhex(2, &size);
		Str str;
		str_set(&str, (char*)in, size);
		// the result is added to what the buffer has
		auto buf = buf_create();
		buf_write(buf, "xyz", 3);
		bool enc = v_is("enc");
		bool ok = !error_catch(
			if (enc) {
				if (url)
					base64url_encode(buf, &str);
				else
					base64_encode(buf, &str);
			} else
			{
				if (url)
					base64url_decode(buf, &str);
				else
					base64_decode(buf, &str);
			}
		);
		if (buf_size(buf) < 3 || memcmp(buf->start, "xyz", 3))
			v_bad("what the buffer had is lost");
		v_out("{\"ok\":%s,\"bytes\":\"", ok ? "true" : "false");
		if (ok)
			hex((uint8_t*)buf->start + 3, buf_size(buf) - 3);
		v_out("\",\"bad\":%s}", v_bad_json());
		buf_free(buf);
		free(in);
	} else
	if (v_is("crc"))
	{
		int size;
		uint8_t* in = unhex(3, &size);
		int cut = v_int(4);
		uint32_t start = v_int(1) << 16 | v_int(2), crc = 0;
		CrcFunction list[3] = { crc32, crc32_sse_supported() ? crc32_sse : crc32, runtime()->crc ? runtime()->crc : crc32 };
		for (int align = 0; align < 8; align++)
		{
			uint8_t* copy = malloc(align + size + 1);
			uint8_t* p = copy + align;
			memcpy(p, in, size);
			for (int i = 0; i < 3; i++)
			{
				uint32_t one = list[i](start, p, size);
				uint32_t two = list[i](list[i](start, p, cut), p + cut, size - cut);
				if (align == 0 && i == 0)
					crc = one;
				if (one != crc)
					v_bad("implementation %d at alignment %d is %08x, not %08x", i, align, one, crc);
				if (two != crc)
					v_bad("implementation %d at alignment %d in two pieces is %08x, not %08x", i, align, two, crc);
			}
			free(copy);
		}
		v_out("{\"ok\":true,\"crc\":[%u,%u],\"bad\":%s}", crc >> 16, crc & 0xffff, v_bad_json());
		free(in);
	} else
	if (v_is("new"))
	{
		int n = codecs_count++;
		codecs[n] = compression_create(&cache, COMPRESSION_ZSTD, v_int(1));
		streams[n] = NULL;
		if (! codecs[n])
			v_bad("no codec");
		for (int i = 0; i < n; i++)
			if (codecs[i] && codecs[i] == codecs[n])
				v_bad("a codec in use is given again");
		out_ok(true);
	} else
	if (v_is("release"))
	{
		int n = v_int(1);
		codec_cache_push(&cache, codecs[n]);
		codecs[n] = NULL;
		out_ok(true);
	} else
	if (v_is("zbegin"))
	{
		int n = v_int(1);
		if (streams[n])
			buf_free(streams[n]);
		streams[n] = buf_create();
		buf_write(streams[n], "xyz", 3);
		fed[n] = 0;
		out_ok(! error_catch( codec_encode_begin(codecs[n], streams[n]) ));
	} else
	if (v_is("zfeed"))
	{
		int n = v_int(1);
		int size = v_int(4);
		uint8_t* in = data(v_int(2), v_int(3), size);
		fed[n] += size;
		bool ok;
		if (size % 2)
		{
			auto copy = buf_create();
			buf_write(copy, in, size);
			ok = !error_catch( codec_encode_buf(codecs[n], streams[n], copy) );
			buf_free(copy);
		} else
			ok = !error_catch( codec_encode(codecs[n], streams[n], in, size) );
		free(in);
		out_ok(ok);
	} else
	if (v_is("zend"))
	{
		int n = v_int(1);
		bool ok = !error_catch( codec_encode_end(codecs[n], streams[n]) );
		if (memcmp(streams[n]->start, "xyz", 3))
			v_bad("what the buffer had is lost");
		blobs_size[blobs_count] = fed[n];
		blobs[blobs_count++] = streams[n];
		streams[n] = NULL;
		out_ok(ok);
	} else
	if (v_is("unzip"))
	{
		int n = v_int(1), b = v_int(2);
		int size = blobs_size[b] + v_int(3);
		int have = buf_size(blobs[b]) - 3 - v_int(4);
		if (have < 0)
			have = 0;
		uint8_t* in = malloc(have ? have : 1);
		memcpy(in, (uint8_t*)blobs[b]->start + 3, have);
		uint8_t* out = malloc(size ? size : 1);
		bool ok = !error_catch( codec_decode(codecs[n], out, size, in, have) );
		// Fowler-Noll-Vo of the data
		uint64_t h = 14695981039346656037ull;
		for (int i = 0; ok && i < size; i++)
			h = (h ^ out[i]) * 1099511628211ull;
		v_out("{\"ok\":%s,\"size\":%d,\"hash\":\"%016" PRIx64 "\",\"bad\":%s}", ok ? "true" : "false", size, h, v_bad_json());
		free(in);
		free(out);
	} else
	{
		v_bad("unknown operation");
		out_ok(false);
	}
}
