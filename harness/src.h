// Inputs that deliver a given text in arbitrary pieces.
#ifndef SRC_H
#define SRC_H
#include "model.h"
#include <Variant/ParserInput.h>
#include <Variant/Parser.h>
static unsigned readBudget; // reads that may be short; later ones deliver all that fits
struct Src : ParserStreamInput {
	std::string text; unsigned pos, boomAt; // boomAt: throws when asked for more with this many bytes delivered
	struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
	Src(const std::string &t, unsigned buf) : ParserStreamInput(buf), text(t), pos(0), boomAt(~0u) {}
	unsigned Read(void *p, unsigned len) {
		if (pos>=boomAt) throw Boom();
		unsigned left=text.size()-pos; if (left>len) left=len; if (boomAt!=~0u && left>boomAt-pos) left=boomAt-pos;
		if (left>1 && readBudget) { readBudget--; uint8_t n=vp_u8("read"); vp_assume(n>=1 && n<=left); left=(unsigned)vp_fork(n); }
		if (left) memcpy(p,text.data()+pos,left); pos+=left; return left;
	}
};
static inline unsigned bufsize() { static const unsigned S[]={1,2,3,5,16}; return S[pick("buffer",vp_param("BUFS",5))]; }
#endif
