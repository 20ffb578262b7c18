// Model of the YAML library: events handed to the emitter are recorded, the parser delivers a given list of events, and any
// call may fail.  Follows libyaml in ownership (an event is taken over by yaml_emitter_emit even when that fails), in what a
// failed or finished parser reports afterwards (success with no event), and in copying all text.
#ifndef YMODEL_H
#define YMODEL_H
#include "model.h"
#include <yaml.h>
struct YE { int type, style; bool plain, quoted, hasTag, hasAnchor; std::string text, tag, anchor;
	YE(int t=0) : type(t), style(0), plain(true), quoted(true), hasTag(false), hasAnchor(false) {} };
struct Y { std::vector<YE> out, in; unsigned pos, calls, failAt, readAt, indent, width, emitters, parsers, wmax, rmax; bool failed, parserDead, readFailed; std::string read; unsigned emitted;
	Y() : pos(0), calls(0), failAt(~0u), readAt(0), indent(0), width(0), emitters(0), parsers(0), wmax(~0u), rmax(64), failed(false), parserDead(false), readFailed(false), emitted(0) {} };
static Y *y;
static void (*yopened)(), (*yloaded)(); // told when a parser is made and when it has read its input
static bool yfail() { if (y->calls++==y->failAt) { y->failed=true; return true; } return false; }
static yaml_char_t *ydup(const char *p, size_t n) { yaml_char_t *r=(yaml_char_t*)malloc(n+1); memcpy(r,p,n); r[n]=0; return r; }
struct YQ { yaml_event_t ev; YQ *next; };
extern "C" {
void yaml_event_delete(yaml_event_t *e) {
	switch (e->type) {
	case YAML_ALIAS_EVENT: free(e->data.alias.anchor); break;
	case YAML_SCALAR_EVENT: free(e->data.scalar.anchor); free(e->data.scalar.tag); free(e->data.scalar.value); break;
	case YAML_SEQUENCE_START_EVENT: free(e->data.sequence_start.anchor); free(e->data.sequence_start.tag); break;
	case YAML_MAPPING_START_EVENT: free(e->data.mapping_start.anchor); free(e->data.mapping_start.tag); break;
	default: break;
	}
	memset(e,0,sizeof *e);
}
static int yinit(yaml_event_t *e, yaml_event_type_t t) { if (yfail()) return 0; memset(e,0,sizeof *e); e->type=t; return 1; }
int yaml_stream_start_event_initialize(yaml_event_t *e, yaml_encoding_t) { return yinit(e,YAML_STREAM_START_EVENT); }
int yaml_stream_end_event_initialize(yaml_event_t *e) { return yinit(e,YAML_STREAM_END_EVENT); }
int yaml_document_start_event_initialize(yaml_event_t *e, yaml_version_directive_t*, yaml_tag_directive_t*, yaml_tag_directive_t*, int imp) { if (!yinit(e,YAML_DOCUMENT_START_EVENT)) return 0; e->data.document_start.implicit=imp; return 1; }
int yaml_document_end_event_initialize(yaml_event_t *e, int imp) { if (!yinit(e,YAML_DOCUMENT_END_EVENT)) return 0; e->data.document_end.implicit=imp; return 1; }
int yaml_scalar_event_initialize(yaml_event_t *e, const yaml_char_t *anchor, const yaml_char_t *tag, const yaml_char_t *v, int len, int pi, int qi, yaml_scalar_style_t st) {
	if (!yinit(e,YAML_SCALAR_EVENT)) return 0;
	if (len<0) len=(int)strlen((const char*)v);
	e->data.scalar.anchor=anchor?ydup((const char*)anchor,strlen((const char*)anchor)):0; e->data.scalar.tag=tag?ydup((const char*)tag,strlen((const char*)tag)):0;
	e->data.scalar.value=ydup((const char*)v,len); e->data.scalar.length=len; e->data.scalar.plain_implicit=pi; e->data.scalar.quoted_implicit=qi; e->data.scalar.style=st; return 1;
}
int yaml_sequence_start_event_initialize(yaml_event_t *e, const yaml_char_t*, const yaml_char_t*, int imp, yaml_sequence_style_t st) { if (!yinit(e,YAML_SEQUENCE_START_EVENT)) return 0; e->data.sequence_start.implicit=imp; e->data.sequence_start.style=st; return 1; }
int yaml_sequence_end_event_initialize(yaml_event_t *e) { return yinit(e,YAML_SEQUENCE_END_EVENT); }
int yaml_mapping_start_event_initialize(yaml_event_t *e, const yaml_char_t*, const yaml_char_t*, int imp, yaml_mapping_style_t st) { if (!yinit(e,YAML_MAPPING_START_EVENT)) return 0; e->data.mapping_start.implicit=imp; e->data.mapping_start.style=st; return 1; }
int yaml_mapping_end_event_initialize(yaml_event_t *e) { return yinit(e,YAML_MAPPING_END_EVENT); }
// emitter: buffer.start holds a token so that a missing delete is a leak, read_handler fields unused, tag_directives.start the queue
int yaml_emitter_initialize(yaml_emitter_t *e) { memset(e,0,sizeof *e); if (yfail()) { e->error=YAML_MEMORY_ERROR; return 0; } e->buffer.start=(yaml_char_t*)malloc(1); e->best_width=80; y->emitters++; return 1; }
void yaml_emitter_delete(yaml_emitter_t *e) { y->emitters--; free(e->buffer.start); YQ *q=(YQ*)e->tag_directives.start; while (q) { YQ *n=q->next; yaml_event_delete(&q->ev); free(q); q=n; } memset(e,0,sizeof *e); }
void yaml_emitter_set_output(yaml_emitter_t *e, yaml_write_handler_t *h, void *d) { e->write_handler=h; e->write_handler_data=d; }
void yaml_emitter_set_indent(yaml_emitter_t *e, int n) { e->best_indent=n; y->indent=n; }
void yaml_emitter_set_width(yaml_emitter_t *e, int n) { e->best_width=n; y->width=n; }
static const char ytext[]="<<first>><<second>><<third>>"; // stands for the text of an event; flushing writes one piece per event
int yaml_emitter_flush(yaml_emitter_t *e) {
	if (e->error) return 0;
	if (yfail()) { e->error=YAML_WRITER_ERROR; e->problem="write error"; return 0; }
	while (y->emitted<y->out.size()) { // text of an event: its type and contents
		const YE &o=y->out[y->emitted]; std::string t(1,(char)('A'+o.type)); t+=o.text; t+=';';
		y->emitted++;
		if (!e->write_handler(e->write_handler_data,(unsigned char*)&t[0],t.size())) { y->failed=true; e->error=YAML_WRITER_ERROR; e->problem="write error"; return 0; }
	}
	return 1;
}
int yaml_emitter_emit(yaml_emitter_t *e, yaml_event_t *ev) {
	YQ *q=(YQ*)malloc(sizeof(YQ)); q->ev=*ev; // taken over
	if (e->error) { yaml_event_delete(&q->ev); free(q); return 0; }
	if (yfail()) { if (pick("emit error",2)) { e->error=YAML_MEMORY_ERROR; yaml_event_delete(&q->ev); free(q); e->problem=0; } else { e->error=YAML_EMITTER_ERROR; e->problem="emitter error"; q->next=(YQ*)e->tag_directives.start; e->tag_directives.start=(yaml_tag_directive_t*)q; } return 0; }
	YE r(ev->type);
	switch (ev->type) {
	case YAML_DOCUMENT_START_EVENT: r.plain=ev->data.document_start.implicit!=0; break;
	case YAML_DOCUMENT_END_EVENT: r.plain=ev->data.document_end.implicit!=0; break;
	case YAML_SCALAR_EVENT: r.style=ev->data.scalar.style; r.plain=ev->data.scalar.plain_implicit!=0; r.quoted=ev->data.scalar.quoted_implicit!=0; r.text.assign((const char*)ev->data.scalar.value,ev->data.scalar.length); if (ev->data.scalar.tag) { r.hasTag=true; r.tag=(const char*)ev->data.scalar.tag; } break;
	case YAML_SEQUENCE_START_EVENT: r.style=ev->data.sequence_start.style; r.plain=ev->data.sequence_start.implicit!=0; break;
	case YAML_MAPPING_START_EVENT: r.style=ev->data.mapping_start.style; r.plain=ev->data.mapping_start.implicit!=0; break;
	default: break;
	}
	y->out.push_back(r); 
	if (y->out.size()-y->emitted>y->wmax && !yaml_emitter_flush(e)) { q->next=(YQ*)e->tag_directives.start; e->tag_directives.start=(yaml_tag_directive_t*)q; return 0; }
	yaml_event_delete(&q->ev); free(q); return 1;
}
int yaml_parser_initialize(yaml_parser_t *p) { memset(p,0,sizeof *p); if (yfail()) { p->error=YAML_MEMORY_ERROR; return 0; } p->raw_buffer.start=(unsigned char*)malloc(1); y->parsers++; if (yopened) yopened(); return 1; }
void yaml_parser_delete(yaml_parser_t *p) { if (p->raw_buffer.start) y->parsers--; free(p->raw_buffer.start); memset(p,0,sizeof *p); }
void yaml_parser_set_input(yaml_parser_t *p, yaml_read_handler_t *h, void *d) { p->read_handler=h; p->read_handler_data=d; }
static yaml_char_t *ynew(bool have, const std::string &s) { return have?ydup(s.data(),s.size()):0; }
int yaml_parser_parse(yaml_parser_t *p, yaml_event_t *e) {
	memset(e,0,sizeof *e);
	if (p->stream_end_produced || p->error) return 1;
	if (y->pos==y->readAt) { // the input is read to its end before the event at readAt
		for (;;) { unsigned char b[64]; size_t n=12345; unsigned ask=y->rmax;
			if (!p->read_handler(p->read_handler_data,b,ask,&n)) { p->error=YAML_READER_ERROR; p->problem="input error"; y->readFailed=true; return 0; }
			vp_assert(n<=ask,"read handler delivered more than asked for"); y->read.append((const char*)b,n); if (!n) break; }
		if (yloaded) yloaded();
	}
	if (yfail() || y->pos>=y->in.size()) { p->error=YAML_PARSER_ERROR; p->problem="did not find expected node"; p->context=pick("context",2)?"while parsing a node":0; return 0; }
	const YE &i=y->in[y->pos++]; e->type=(yaml_event_type_t)i.type;
	switch (i.type) {
	case YAML_STREAM_END_EVENT: p->stream_end_produced=1; break;
	case YAML_ALIAS_EVENT: e->data.alias.anchor=ynew(true,i.anchor); break;
	case YAML_SCALAR_EVENT: e->data.scalar.anchor=ynew(i.hasAnchor,i.anchor); e->data.scalar.tag=ynew(i.hasTag,i.tag); e->data.scalar.value=ynew(true,i.text); e->data.scalar.length=i.text.size(); e->data.scalar.style=(yaml_scalar_style_t)i.style; e->data.scalar.plain_implicit=i.plain; e->data.scalar.quoted_implicit=i.quoted; break;
	case YAML_SEQUENCE_START_EVENT: e->data.sequence_start.anchor=ynew(i.hasAnchor,i.anchor); e->data.sequence_start.tag=ynew(i.hasTag,i.tag); break;
	case YAML_MAPPING_START_EVENT: e->data.mapping_start.anchor=ynew(i.hasAnchor,i.anchor); e->data.mapping_start.tag=ynew(i.hasTag,i.tag); break;
	default: break;
	}
	return 1;
}
}
// what a reader of the written text would see: a scalar of undecided style may be written plain or quoted; the tag is
// written unless it is implied for the style
static void reread() {
	for (unsigned k=0;k<y->out.size();k++) { YE e=y->out[k];
		if (e.type==YAML_SCALAR_EVENT) {
			if (!e.hasTag && !e.plain && (e.style==YAML_ANY_SCALAR_STYLE || e.style==YAML_PLAIN_SCALAR_STYLE)) e.style=YAML_SINGLE_QUOTED_SCALAR_STYLE;
			if (e.style==YAML_ANY_SCALAR_STYLE) e.style=pick("written",2)?YAML_SINGLE_QUOTED_SCALAR_STYLE:YAML_PLAIN_SCALAR_STYLE;
			if (e.hasTag && (e.style==YAML_PLAIN_SCALAR_STYLE?e.plain:e.quoted)) e.hasTag=false;
		}
		y->in.push_back(e);
	}
}
static std::string ywritten() { std::string r; for (unsigned k=0;k<y->out.size();k++) { r+=(char)('A'+y->out[k].type); r+=y->out[k].text; r+=';'; } return r; }
// the order of events the YAML library insists on: a stream of documents each holding one node
static void node(unsigned &k, const M &m) {
	const std::vector<YE> &o=y->out; vp_assert(k<o.size(),"an event is missing"); const YE &e=o[k++];
	if (m.t==M::L) { vp_assert(e.type==YAML_SEQUENCE_START_EVENT,"list start missing"); for (unsigned i=0;i<m.l.size();i++) node(k,m.l[i]); vp_assert(k<o.size() && o[k].type==YAML_SEQUENCE_END_EVENT,"list end missing"); k++; return; }
	if (m.t==M::O) { vp_assert(e.type==YAML_MAPPING_START_EVENT,"map start missing"); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { node(k,M::str(i->first)); node(k,i->second); } vp_assert(k<o.size() && o[k].type==YAML_MAPPING_END_EVENT,"map end missing"); k++; return; }
	vp_assert(e.type==YAML_SCALAR_EVENT,"scalar missing");
	if (m.t==M::S) vp_assert(eqs(e.text,m.s),"scalar text differs from the string");
	if (m.t!=M::X) vp_assert(!e.hasTag && (e.plain||e.quoted),"unexpected tag");
}
#endif
