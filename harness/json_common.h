#pragma once
#include "vp.h"
#include "json/json_serializer.cpp"
using namespace CubicleSoft;
typedef JSON::Serializer S;
// one call, fully described, so that it can be applied to several serializers
struct Op { unsigned code; bool haskey; char key[4]; char str[4]; unsigned len; int64_t num; bool b; };
enum { OStartObj, OStartArr, OStartStr, OEndObj, OEndArr, OEndStr, ONull, OBool, OInt, OUInt, OStr, OStrN, ORaw, ONOPS };
static const int64_t NUMS[] = { 0, -1, 7, INT64_MIN, INT64_MAX, -1234567890123LL };
static bool apply(S &s, const Op &o) {
	const char *k = o.haskey ? o.key : NULL;
	switch (o.code) {
		case OStartObj: return s.StartObject(k);
		case OStartArr: return s.StartArray(k);
		case OStartStr: return s.StartStr(k);
		case OEndObj: return s.EndObject();
		case OEndArr: return s.EndArray();
		case OEndStr: return s.EndStr();
		case ONull: return s.AppendNull(k);
		case OBool: return k ? s.AppendBool(k, o.b) : s.AppendBool(o.b);
		case OInt: return k ? s.AppendInt(k, o.num) : s.AppendInt(o.num);
		case OUInt: return k ? s.AppendUInt(k, (uint64_t)o.num) : s.AppendUInt((uint64_t)o.num);
		case OStr: return k ? s.AppendStr(k, o.str) : s.AppendStr(o.str);
		case OStrN: return k ? s.AppendStr(k, o.str, o.len) : s.AppendStr(o.str, (size_t)o.len);
		default: return s.Append(" \n", o.len);
	}
}
static bool takeskey(unsigned c) { return c != OEndObj && c != OEndArr && c != OEndStr && c != ORaw; }
// contexts reached by legal calls
static void context(S &s, unsigned c) {
	bool ok = true;
	switch (c) {
		case 0: break;
		case 1: ok = s.StartArray(); break;
		case 2: ok = s.StartArray() && s.AppendNull(); break;
		case 3: ok = s.StartObject(); break;
		case 4: ok = s.StartObject() && s.AppendInt("a", 1); break;
		case 5: ok = s.StartStr(); break;
		case 6: ok = s.StartArray() && s.StartStr(); break;
		case 7: ok = s.StartObject() && s.AppendNull("n") && s.StartStr("k"); break;
		case 8: ok = s.AppendNull(); break;
		case 9: ok = s.StartArray() && s.StartObject() && s.AppendNull("x"); break;
	}
	vp_assert(ok, "legal calls refused in a large buffer");
}
#define NCTX 10
