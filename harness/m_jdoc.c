// Driver of the Jdoc specification (spec/Jdoc.tla): JSON read, written, ordered
// and changed by the code which SQL functions use.
#include "vdrv.h"
#include <amelie_value.h>
#include "value/update.c"

#define SLOTS 8
static Buf* docs[SLOTS];

void
vmod_main(int argc, char** argv)
{
	unused(argc);
	unused(argv);
}

void
vmod_begin(void)
{
	for (int i = 0; i < SLOTS; i++)
	{
		docs[i] = buf_create();
		encode_null(docs[i]);
	}
	v_out("{}");
}

void
vmod_end(void)
{
	for (int i = 0; i < SLOTS; i++)
		buf_free(docs[i]);
	v_out("{}");
}

static char*
unhex(const char* s, int* size, const char* tail)
{
	char* data = malloc(strlen(s) / 2 + strlen(tail) + 1);
	*size = 0;
	for (; *s != '-' && s[0] && s[1]; s += 2)
	{
		unsigned v;
		sscanf(s, "%2x", &v);
		data[(*size)++] = v;
	}
	strcpy(data + *size, tail);
	return data;
}

// what a value holds, as its readers see it
static void
dump(uint8_t** pos)
{
	switch (**pos) {
	case JSON_NULL:
		json_read_null(pos);
		v_out("n");
		break;
	case JSON_TRUE:
	case JSON_FALSE:
	{
		bool b;
		json_read_bool(pos, &b);
		v_out(b ? "t" : "f");
		break;
	}
	case JSON_REAL32:
	case JSON_REAL64:
	{
		double d;
		json_read_real(pos, &d);
		v_out("r%g", d);
		break;
	}
	case JSON_INTV0 ... JSON_INT64:
	{
		int64_t i;
		json_read_integer(pos, &i);
		v_out("i%" PRIi64, i);
		break;
	}
	case JSON_STRINGV0 ... JSON_STRING32:
	{
		Str s;
		json_read_string(pos, &s);
		v_out("s");
		for (int i = 0; i < str_size(&s); i++)
			v_out("%02x", (uint8_t)str_of(&s)[i]);
		break;
	}
	case JSON_ARRAY:
		json_read_array(pos);
		v_out("[");
		while (! json_read_array_end(pos)) {
			dump(pos);
			v_out(",");
		}
		v_out("]");
		break;
	case JSON_OBJ:
		json_read_obj(pos);
		v_out("{");
		while (! json_read_obj_end(pos)) {
			dump(pos);
			v_out(":");
			dump(pos);
			v_out(",");
		}
		v_out("}");
		break;
	default:
		v_out("?%d", **pos);
		abort();
	}
}

static void
reread(Buf* text, uint8_t* json, const char* what, bool reals)
{
	Json parser;
	json_init(&parser);
	Str str;
	str_set(&str, (char*)text->start, buf_size(text));
	if (error_catch( json_parse(&parser, &str, NULL) ))
		v_bad("the %s text cannot be read", what);
	else
	if (! reals)
	{
		if (parser.pos != str.end)
			v_bad("the %s text is read up to %d of %d", what, (int)(parser.pos - str.pos), str_size(&str));
		if (json_compare(parser.buf->start, json) || json_compare(json, parser.buf->start))
			v_bad("the %s text is another value", what);
	}
	json_free(&parser);
}

// a document has a new value: report it
static void
tell(Buf* buf)
{
	v_out(",\"v\":\"");
	auto pos = buf->start;
	dump(&pos);
	v_out("\"");
	if (pos != buf->position)
		v_bad("a value of %d bytes is read as %d", buf_size(buf), (int)(pos - buf->start));
	if (json_sizeof(buf->start) != buf_size(buf))
		v_bad("a value of %d bytes has the size %d", buf_size(buf), json_sizeof(buf->start));

	bool reals = false;
	for (auto p = buf->start; p < buf->position; )
	{
		if (json_is_real(p))
			reals = true;
		if (json_is_obj(p) || json_is_obj_end(p) || json_is_array(p) || json_is_array_end(p))
			p++;
		else
			json_skip(&p);
	}

	// as text
	Buf* text = buf_create();
	pos = buf->start;
	json_export(text, NULL, &pos);
	v_out(",\"out\":\"");
	for (auto p = text->start; p < text->position; p++)
		v_out("%02x", *p);
	v_out("\"");
	reread(text, buf->start, "exported", reals);

	// as a value of SQL, and as text of it
	Value value;
	value_init(&value);
	value_decode(&value, buf->start, NULL);
	Buf* again = buf_create();
	value_encode(&value, NULL, again);
	if (json_compare(again->start, buf->start) || buf_size(again) != json_sizeof(again->start))
		v_bad("the value is another one when encoded again");
	Buf* other = buf_create();
	value_export(&value, NULL, false, other);
	if (buf_size(other) != buf_size(text) || memcmp(other->start, text->start, buf_size(text)))
		v_bad("the value is exported as '%.*s'", buf_size(other), (char*)other->start);
	buf_reset(other);
	value_export(&value, NULL, true, other);
	reread(other, buf->start, "pretty", reals);
	buf_free(other);
	buf_free(again);
	buf_free(text);
}

static void
put(int slot, Buf* buf)
{
	buf_free(docs[slot]);
	docs[slot] = buf;
	tell(buf);
}

static void
put_copy(int slot, uint8_t* data)
{
	auto buf = buf_create();
	buf_write(buf, data, json_sizeof(data));
	put(slot, buf);
}

static void
put_value(int slot, Value* value)
{
	if (value->type != TYPE_JSON)
		v_bad("the result is of type %d", value->type);
	put_copy(slot, value->json);
	value_free(value);
}

static int
slot_of(int arg)
{
	return v_int(arg) - 1;
}

static void
op_parse(void)
{
	int size;
	// the text is part of something longer
	char* data = unhex(v_str(2), &size, "7.7e7\"}]");
	Json parser;
	json_init(&parser);
	Str str;
	str_set(&str, data, size);
	Buf* buf = buf_create();
	bool err = error_catch( json_parse(&parser, &str, buf) );
	v_out("{\"ok\":%s", err ? "false" : "true");
	if (! err)
	{
		v_out(",\"used\":%d", (int)(parser.pos - data));
		memset(data, 'x', size);
		// the parser is used again
		json_reset(&parser);
		Str other;
		str_set(&other, "[1]", 3);
		json_parse(&parser, &other, NULL);
		put(slot_of(1), buf);
	} else
	{
		json_reset(&parser);
		Str other;
		str_set(&other, "{'a':[1]}", 9);
		if (error_catch( json_parse(&parser, &other, NULL) ))
			v_bad("nothing is read after an error");
		buf_free(buf);
	}
	json_free(&parser);
	free(data);
}

void
vmod_op(void)
{
	if (v_is("parse"))
		op_parse();
	else
	if (v_is("compare"))
	{
		int count = v_int(1);
		v_out("{\"m\":[");
		for (int i = 0; i < count; i++)
		{
			v_out("%s[", i ? "," : "");
			for (int j = 0; j < count; j++)
			{
				int rc = json_compare(docs[i]->start, docs[j]->start);
				v_out("%s%d", j ? "," : "", (rc > 0) - (rc < 0));
				Value a, b;
				value_init(&a);
				value_init(&b);
				value_set_json(&a, docs[i]->start, buf_size(docs[i]), NULL);
				value_set_json(&b, docs[j]->start, buf_size(docs[j]), NULL);
				int cr = value_compare(&a, &b);
				if ((cr > 0) - (cr < 0) != (rc > 0) - (rc < 0))
					v_bad("SQL values are ordered in another way");
			}
			v_out("]");
		}
		v_out("]");
	} else
	if (v_is("set") || v_is("unset") || v_is("get"))
	{
		int size;
		char* path = unhex(v_str(v_argc - 1), &size, ".a");
		Str str;
		str_set(&str, path, size);
		int slot = slot_of(1);
		auto json = docs[slot]->start;
		Value result;
		value_init(&result);
		if (v_is("get"))
		{
			auto pos = json;
			bool has = false;
			bool err = error_catch( has = json_obj_find_path(&pos, &str) );
			v_out("{\"ok\":%s,\"has\":%s", err ? "false" : "true", has ? "true" : "false");
			if (! err)
			{
				value_obj_has(&result, json, &str);
				if (result.integer != has)
					v_bad("a value at the path is reported in two ways");
			}
			if (has)
				put_copy(slot_of(2), pos);
		} else
		if (v_is("set"))
		{
			Value value;
			value_init(&value);
			value_decode(&value, docs[slot_of(2)]->start, NULL);
			bool err = error_catch( update_set(&result, NULL, json, &str, &value) );
			v_out("{\"ok\":%s", err ? "false" : "true");
			if (! err)
				put_value(slot, &result);
		} else
		{
			bool err = error_catch( update_unset(&result, json, &str) );
			v_out("{\"ok\":%s", err ? "false" : "true");
			if (! err)
				put_value(slot, &result);
		}
		free(path);
	} else
	if (v_is("at"))
	{
		auto pos = docs[slot_of(1)]->start;
		bool has = json_array_find(&pos, v_int(2));
		if (json_array_has(docs[slot_of(1)]->start, v_int(2)) != has)
			v_bad("an element is reported in two ways");
		v_out("{\"ok\":true,\"has\":%s", has ? "true" : "false");
		if (has)
			put_copy(slot_of(3), pos);
	} else
	if (v_is("size"))
	{
		auto json = docs[slot_of(1)]->start;
		v_out("{\"ok\":true,\"n\":%d", json_is_array(json) ? json_array_size(json) : json_obj_size(json));
	} else
	{
		bool make = v_is("array") || v_is("object");
		int  first = make ? 2 : 3, count = v_argc - first;
		int  slot = slot_of(1);
		auto json = docs[slot]->start;
		auto json_size = buf_size(docs[slot]);
		Value list[16], result;
		value_init(&result);
		for (int i = 0; i < count; i++)
		{
			value_init(&list[i]);
			value_decode(&list[i], docs[slot_of(first + i)]->start, NULL);
		}
		bool err = false;
		if (make)
		{
			Stack stack;
			stack_init(&stack);
			for (int i = 0; i < count; i++)
				*stack_push(&stack) = list[i];
			if (v_is("array"))
				value_array(&result, NULL, &stack, count);
			else
				err = error_catch( value_obj(&result, NULL, &stack, count) );
			buf_free_memory(&stack.stack);
		} else
		if (v_is("append"))
			value_array_append(&result, NULL, json, json_size, count, list);
		else
		if (v_is("push"))
			value_array_push(&result, NULL, json, json_size, count, list);
		else
		if (v_is("pop"))
			value_array_pop(&result, json, json_size);
		else
		if (v_is("pop_back"))
			value_array_pop_back(&result, json);
		else
		if (v_is("put"))
			err = error_catch( value_array_put(&result, NULL, json, v_int(2), &list[0]) );
		else
		if (v_is("remove"))
			err = error_catch( value_array_remove(&result, json, v_int(2)) );
		else
			abort();
		v_out("{\"ok\":%s", err ? "false" : "true");
		if (! err)
			put_value(slot, &result);
	}
	v_out(",\"bad\":%s}", v_bad_json());
}
