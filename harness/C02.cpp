// Any bytes deserialized as JSON: ends with a value or an exception, memory safe, nothing leaked.
#include "model.h"
static void feed(const std::string &t) {
	char *b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size()); // exactly sized
	try { Variant v=Deserialize(b,t.size(),SERIALIZE_JSON); obsV(v); vp_reach("value"); } catch (const std::exception &) { vp_observe(77); vp_reach("refused"); }
	free(b);
}
extern "C" void vp_main() {
	unsigned n=vp_param("N",4);
	switch (vp_param("CASE",0)) {
	case 0: feed(symstrv("text",n)); break;
	case 1: { static const char *const P[]={"[\"\\","[\"\\u12","[\"\\ud83d","{\"a","{\"a\":","[1,","[-","[1e","[/*","[1/*a","{\"a\":1,","[[]","[tru","[\"a\\\"","5","[1.","{\"a\"/**/"}; std::string p=P[pick("prefix",17)]; feed(p+symstr("text",n)); break; }
	case 2: { unsigned fill=vp_param("FILL",3496)+pick("fill",8); bool key=pick("key",2); feed((key?"{\"":"[\"")+std::string(fill,'x')+symstr("text",n)+(key?"\":1}":"\"]")); break; } // token buffer growth
	case 3: { unsigned d=124+pick("depth",8); std::string t; bool map=pick("map",2); for (unsigned i=0;i<d;i++) t+=map?"{\"a\":":"["; t+=symstr("text",n); for (unsigned i=0;i<d;i++) t+=map?"}":"]"; feed(t); break; } // nesting stack growth
	case 4: feed("[\"\\u0000BLOB"+symstrv("text",n)+"\"]"); break;
	case 5: { unsigned fill=vp_param("FILL",3494)+pick("fill",8); std::string d=symstr("text",n); feed("["+std::string(fill,'1')+d+"]"); break; } // long number
	}
}
