// Model of the XML library: elements and text handed to the writer are recorded, the reader delivers a given list of nodes,
// and any call may fail.  Follows libxml2 in ownership (the writer closes its output, a failed xmlReaderForIO closes the
// input), in buffering (text reaches the write callback when flushed), and in that names and values are only valid until
// the next read.
#ifndef XMODEL_H
#define XMODEL_H
#include "model.h"
#include <libxml/xmlwriter.h>
#include <libxml/xmlreader.h>
struct XN { int type; std::string name, value; bool empty; XN(int t=0, const std::string &n="", const std::string &v="", bool e=false) : type(t), name(n), value(v), empty(e) {} };
struct XO { char kind; std::string text; XO(char k, const std::string &t) : kind(k), text(t) {} }; // S start, T text, E end, D document
struct X { std::vector<XO> out; std::vector<std::string> open; std::vector<XN> in; unsigned pos, calls, failAt, readAt, rmax, writers, readers, flushed, indent; bool failed, readFailed, docEnded; std::string read;
	X() : pos(0), calls(0), failAt(~0u), readAt(0), rmax(64), writers(0), readers(0), flushed(0), indent(0), failed(false), readFailed(false), docEnded(false) {} };
static X *x;
static bool xfail() { if (x->calls++==x->failAt) { x->failed=true; return true; } return false; }
struct OB { xmlOutputWriteCallback w; xmlOutputCloseCallback c; void *ctx; bool err; };
struct WR { OB *o; };
struct RD { xmlInputReadCallback r; xmlInputCloseCallback c; void *ctx; bool closed, err; char *name, *value; int type; bool empty; };
static xmlError xerr;
static std::string xtext(unsigned from) { std::string r; for (unsigned i=from;i<x->out.size();i++) { r+=x->out[i].kind; r+=x->out[i].text; r+=';'; } return r; }
static int xflush(OB *o) { if (o->err) return -1; if (x->flushed==x->out.size()) return 0; std::string t=xtext(x->flushed); x->flushed=x->out.size(); int n=o->w(o->ctx,t.data(),(int)t.size()); if (n<0) { o->err=true; x->failed=true; return -1; } vp_assert(n==(int)t.size(),"the write callback did not write everything"); return n; }
extern "C" {
#undef xmlGetLastError
xmlErrorPtr xmlGetLastError(void) { if (!pick("last error",2)) return 0; xerr.message=(char*)"xml error"; return &xerr; }
xmlOutputBufferPtr xmlOutputBufferCreateIO(xmlOutputWriteCallback w, xmlOutputCloseCallback c, void *ctx, xmlCharEncodingHandlerPtr) { if (xfail()) return 0; OB *o=(OB*)malloc(sizeof(OB)); o->w=w; o->c=c; o->ctx=ctx; o->err=false; return (xmlOutputBufferPtr)o; }
int xmlOutputBufferClose(xmlOutputBufferPtr p) { OB *o=(OB*)p; xflush(o); int r=o->c(o->ctx); free(o); return r<0?r:0; }
xmlTextWriterPtr xmlNewTextWriter(xmlOutputBufferPtr p) { if (xfail()) return 0; WR *w=(WR*)malloc(sizeof(WR)); w->o=(OB*)p; x->writers++; return (xmlTextWriterPtr)w; }
void xmlFreeTextWriter(xmlTextWriterPtr p) { if (!p) return; WR *w=(WR*)p; x->writers--; xmlOutputBufferClose((xmlOutputBufferPtr)w->o); free(w); }
int xmlTextWriterSetIndent(xmlTextWriterPtr, int n) { x->indent=n; return 0; }
int xmlTextWriterStartDocument(xmlTextWriterPtr, const char*, const char*, const char *sa) { if (xfail()) return -1; vp_assert(!sa || !strcmp(sa,"yes") || !strcmp(sa,"no"),"standalone"); x->out.push_back(XO('D',"")); return 0; }
int xmlTextWriterFlush(xmlTextWriterPtr p) { if (xfail()) return -1; return xflush(((WR*)p)->o); }
int xmlTextWriterStartElement(xmlTextWriterPtr p, const xmlChar *n) { if (xfail()) return -1; x->out.push_back(XO('S',(const char*)n)); x->open.push_back((const char*)n); return 0; }
int xmlTextWriterEndElement(xmlTextWriterPtr p) { if (xfail()) return -1; if (x->open.empty()) { x->failed=true; return -1; } x->out.push_back(XO('E',x->open.back())); x->open.pop_back(); return 0; }
int xmlTextWriterWriteString(xmlTextWriterPtr p, const xmlChar *t) { if (xfail()) return -1; x->out.push_back(XO('T',(const char*)t)); return 0; }
int xmlTextWriterEndDocument(xmlTextWriterPtr p) { if (xfail()) return -1; while (!x->open.empty()) { x->out.push_back(XO('E',x->open.back())); x->open.pop_back(); } x->docEnded=true; return xflush(((WR*)p)->o)<0?-1:0; }
xmlTextReaderPtr xmlReaderForIO(xmlInputReadCallback r, xmlInputCloseCallback c, void *ctx, const char*, const char*, int) { if (xfail()) { c(ctx); return 0; } RD *d=(RD*)malloc(sizeof(RD)); memset(d,0,sizeof *d); d->r=r; d->c=c; d->ctx=ctx; x->readers++; return (xmlTextReaderPtr)d; }
int xmlTextReaderClose(xmlTextReaderPtr p) { if (!p) return -1; RD *d=(RD*)p; if (!d->closed) { d->closed=true; d->c(d->ctx); } return 0; }
void xmlFreeTextReader(xmlTextReaderPtr p) { if (!p) return; RD *d=(RD*)p; xmlTextReaderClose(p); x->readers--; free(d->name); free(d->value); free(d); }
static char *xnew(const std::string &s) { char *r=(char*)malloc(s.size()+1); memcpy(r,s.data(),s.size()); r[s.size()]=0; return r; }
int xmlTextReaderRead(xmlTextReaderPtr p) {
	RD *d=(RD*)p; if (!d || d->closed || d->err) return -1;
	free(d->name); free(d->value); d->name=d->value=0; d->type=XML_READER_TYPE_NONE;
	if (x->pos==x->readAt) for (;;) { char b[64]; int n=d->r(d->ctx,b,x->rmax); if (n<0) { d->err=true; x->readFailed=true; return -1; } vp_assert((unsigned)n<=x->rmax,"read callback delivered more than asked for"); x->read.append(b,n); if (!n) break; }
	if (xfail()) { d->err=true; return -1; }
	if (x->pos>=x->in.size()) return 0;
	const XN &i=x->in[x->pos++]; d->type=i.type; d->empty=i.empty; d->name=xnew(i.name); if (i.type==XML_READER_TYPE_TEXT || i.type==XML_READER_TYPE_SIGNIFICANT_WHITESPACE || i.type==XML_READER_TYPE_COMMENT) d->value=xnew(i.value); return 1;
}
int xmlTextReaderNodeType(xmlTextReaderPtr p) { return ((RD*)p)->type; }
int xmlTextReaderIsEmptyElement(xmlTextReaderPtr p) { return ((RD*)p)->type==XML_READER_TYPE_ELEMENT && ((RD*)p)->empty; }
const xmlChar *xmlTextReaderConstName(xmlTextReaderPtr p) { return (const xmlChar*)((RD*)p)->name; }
const xmlChar *xmlTextReaderConstValue(xmlTextReaderPtr p) { return (const xmlChar*)((RD*)p)->value; }
}
static bool xblank(char c) { return c==' '||c=='\t'||c=='\n'||c=='\r'; }
static void xtextnode(const std::string &t) { if (t.empty()) return; bool ws=true; for (unsigned i=0;i<t.size();i++) ws=ws && xblank(t[i]); x->in.push_back(XN(ws?XML_READER_TYPE_SIGNIFICANT_WHITESPACE:XML_READER_TYPE_TEXT,"#text",t)); }
// the nodes a reader of the written text sees
static void xreread() {
	for (unsigned k=0;k<x->out.size();k++) { const XO &o=x->out[k];
		if (o.kind=='S') { bool empty=k+1<x->out.size() && x->out[k+1].kind=='E'; x->in.push_back(XN(XML_READER_TYPE_ELEMENT,o.text,"",empty)); if (empty) k++; }
		else if (o.kind=='E') x->in.push_back(XN(XML_READER_TYPE_END_ELEMENT,o.text));
		else if (o.kind=='T') xtextnode(o.text);
	}
}
#endif
