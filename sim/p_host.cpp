// C18: data of the host lent to scripts, structs the host makes, and references the host holds.
// Every script operation on shared data is straight-line code directly followed by a call that
// tells the host which operation it was; the host applies it to its model and compares what it
// sees with its own eyes. Slices, other scripts, collections and host writes come in between.
#include "world.h"

namespace {

struct Slot
{
	int kind;              // 0 int, 1 float, 2 value of the host, 3 raw array, 4 string made by a script, 5 array of ints made by a script
	int i; float f; std::string s; int idx;   // idx: host value or raw buffer
	std::vector<int> a;
	Slot() : kind(0), i(0), f(0), idx(-1) {}
};
struct HostVal { WRValue* v; Slot m; };               // a value the host owns
struct Raw { char* p; std::string m; };               // a buffer the host owns
struct Inst { WRValue v; int sc; Slot m[3]; WRGCObject* at; bool dead; };   // a struct the host made (members a b c)
struct Op
{
	int code, cont, idx; std::string key; Slot val; int var; std::string text;
	Op() : code(0), cont(0), idx(0), var(0) {}
};
struct Sc
{
	Script s; Plan p; Bytes im, mim; WRState* w; std::vector<Op> ops; int no; bool bound, dead, top;
	int which[3];                       // which container d0 / d1 / the argument x holds
	Slot gi, gf, gt; std::vector<Slot> ga; std::map<std::string, Slot> gh; int gp;  // globals (gp: instance held in p, -1 none)
	std::vector<WRValue*> refs;
	bool ghIsHash, imp;
	Sc() : w(0), no(0), bound(false), dead(false), top(false), gp(-1), ghIsHash(false), imp(false) { which[0] = 0; which[1] = 1; which[2] = 0; }
};
struct HostWorld
{
	int nc; WRValue cont[2]; std::map<std::string, Slot> m[2]; WRGCObject* at[2];
	std::vector<HostVal> vals; std::vector<Raw> raws; std::vector<Inst> inst; std::vector<Sc*> sc; WRState* w[2];
	int version;
	bool busy;                           // a script is executing right now
};
HostWorld* H;
const char* c_globals[] = { "gi", "gf", "gt", "ga", "gh", "p", "d0", "d1", "c0" };
const char* c_mem[] = { "a", "b", "c" };

std::string showSlot(Slot const& s)
{
	if (s.kind == 0) return sfmt("%d", s.i);
	if (s.kind == 1) { uint32_t u; memcpy(&u, &s.f, 4); return sfmt("%.7gf%08x", s.f, u); }
	if (s.kind == 4) return "\"" + s.s + "\"";
	if (s.kind == 5) { std::string o = "["; for (size_t i = 0; i < s.a.size(); ++i) o += (i ? "," : "") + sfmt("%d", s.a[i]); return o + "]"; }
	return "?";
}
Slot& target(Slot& s) { return s.kind == 2 ? H->vals[s.idx].m : s; }

void checkSlot(WRContext* c, const char* what, Slot const& s0, WRValue const& v)
{
	Slot const& s = s0.kind == 2 ? H->vals[s0.idx].m : s0;
	std::string got = dump(c, v), want = showSlot(s);
	if (got != want) violate("wrong-value", "%s is %s, should be %s", what, got.c_str(), want.c_str());
}
void checkRaw(int k)
{
	Raw& r = H->raws[k];
	if (memcmp(r.p, r.m.data(), r.m.size())) { size_t i = 0; while (r.p[i] == r.m[i]) ++i; violate("raw-array", "byte %d of buffer %d of the host is %d, should be %d", (int)i, k, (unsigned char)r.p[i], (unsigned char)r.m[i]); }
}
// all of a container, through the host's own reads
void checkContainer(int k)
{
	WRValue& v = H->cont[k];
	if (v.va != H->at[k] || v.xtype != WR_EX_HASH_TABLE) violate("container-moved", "the host's container %d is not what the host made", k);
	std::set<std::string> seen; int n = 0;
	for (WRValue::Iterator it = v.begin(); it != v.end(); ++it)
	{
		WRIteratorEntry const& e = *it;
		std::string name; 
		if (e.key->type == WR_INT)
		{
			for (std::map<std::string, Slot>::iterator i = H->m[k].begin(); i != H->m[k].end(); ++i) if ((int)wr_hashStr(i->first.c_str()) == e.key->asInt()) name = i->first;
			if (name.empty()) violate("stray-key", "container %d has a key %d nobody put there", k, e.key->asInt());
		}
		else { std::string d = dump(0, *e.key); name = d.size() > 2 ? d.substr(1, d.size() - 2) : d; }
		std::map<std::string, Slot>::iterator i = H->m[k].find(name);
		if (i == H->m[k].end()) violate("stray-key", "container %d has a key %s nobody put there", k, name.c_str());
		if (!seen.insert(name).second) violate("double-key", "container %d shows key %s twice", k, name.c_str());
		if (i->second.kind == 6) { if (e.value->deref().va != H->at[1]) violate("container-moved", "entry %s of container %d is no longer the host's container", name.c_str(), k); ++n; continue; }
		if (i->second.kind == 3)
		{
			int len = 0;
			if (!e.value->isRawArray(&len) || len != (int)H->raws[i->second.idx].m.size() || e.value->deref().c != H->raws[i->second.idx].p) violate("raw-moved", "entry %s of container %d is no longer the host's buffer", name.c_str(), k);
			checkRaw(i->second.idx);
		}
		else checkSlot(0, sfmt("entry %s of container %d", name.c_str(), k).c_str(), i->second, *e.value);
		++n;
	}
	for (std::map<std::string, Slot>::iterator i = H->m[k].begin(); i != H->m[k].end(); ++i) if (!seen.count(i->first)) violate("lost-key", "container %d lost key %s", k, i->first.c_str());
}
void checkInstances()
{
	for (size_t i = 0; i < H->inst.size(); ++i)
	{
		Inst& n = H->inst[i]; if (n.dead) continue;
		if (!n.v.isStruct() || n.v.va != n.at) violate("instance-moved", "struct %d of the host changed", (int)i);
		for (int m = 0; m < 3; ++m)
		{
			WRValue* x = n.v.indexStruct(c_mem[m]);
			if (!x) violate("instance-member", "struct %d of the host lost member %s", (int)i, c_mem[m]);
			checkSlot(0, sfmt("member %s of struct %d", c_mem[m], (int)i).c_str(), n.m[m], *x);
		}
	}
}
void checkGlobals(Sc& s)
{
	if (s.dead || !s.top) return;
	for (size_t i = 0; i < sizeof(c_globals) / sizeof(*c_globals); ++i)
		if (wr_getGlobalRef(s.s.c, c_globals[i]) != s.refs[i]) violate("global-moved", "global %s of %s moved", c_globals[i], s.s.name);
	checkSlot(s.s.c, sfmt("global gi of %s", s.s.name).c_str(), s.gi, *s.refs[0]);
	checkSlot(s.s.c, sfmt("global gf of %s", s.s.name).c_str(), s.gf, *s.refs[1]);
	checkSlot(s.s.c, sfmt("global gt of %s", s.s.name).c_str(), s.gt, *s.refs[2]);
	WrenchValue ga(s.s.c, s.refs[3]);
	if (ga.arraySize() != (int)s.ga.size()) violate("wrong-value", "array ga of %s has %d elements, should have %d", s.s.name, ga.arraySize(), (int)s.ga.size());
	for (size_t i = 0; i < s.ga.size(); ++i) checkSlot(s.s.c, sfmt("element %d of array ga of %s", (int)i, s.s.name).c_str(), s.ga[i], *ga.asArrayMember((int)i));
	WrenchValue gh(s.s.c, s.refs[4]);
	int members = 0; s.refs[4]->isHashTable(&members);
	if (s.ghIsHash && members != (int)s.gh.size()) violate("wrong-value", "table gh of %s has %d members, should have %d", s.s.name, members, (int)s.gh.size());
	for (std::map<std::string, Slot>::iterator i = s.gh.begin(); i != s.gh.end(); ++i)
	{
		WRValue* e = gh.getHashTableValue(i->first.c_str());
		if (!e) violate("wrong-value", "table gh of %s lost key %s", s.s.name, i->first.c_str());
		checkSlot(s.s.c, sfmt("entry %s of table gh of %s", i->first.c_str(), s.s.name).c_str(), i->second, *e);
	}
}
void checkAll()
{
	for (int k = 0; k < H->nc; ++k) checkContainer(k);
	for (size_t k = 0; k < H->raws.size(); ++k) checkRaw((int)k);
	for (size_t k = 0; k < H->vals.size(); ++k) checkSlot(0, sfmt("value %d of the host", (int)k).c_str(), H->vals[k].m, *H->vals[k].v);
	checkInstances();
	for (size_t k = 0; k < H->sc.size(); ++k) checkGlobals(*H->sc[k]);
}

Slot numLit(std::string* text)
{
	Slot s;
	if (ch(4) == 3) { s.kind = 1; s.f = (float)chr_(-40, 40) * 0.25f; if (text) { *text = sfmt("%.2f", s.f); } }
	else { s.i = ch(3) ? chr_(-300, 300) : (int)ch(2000000) - 1000000; if (text) *text = sfmt("%d", s.i); }
	return s;
}
std::string newKey() { return sfmt("n%d", (int)ch(ch(4) ? 6 : 60)); }

// the host changes what it owns
void hostWrite(Sc* in)
{
	COUNT("sched.host_write");
	switch (ch(9))
	{
		case 7: if (!H->vals.empty())
		{
			// an entry is made to refer to another value of the host
			int k = ch(H->nc), to = ch((uint32_t)H->vals.size() / 2) * 2; std::string key = sfmt("v%d", (int)ch(3));
			if (!H->m[k].count(key) || H->m[k][key].kind != 2 || H->vals[to].m.kind > 1) break;
			wr_addValueToContainer(&H->cont[k], key.c_str(), H->vals[to].v); H->m[k][key].idx = to; COUNT("sched.host_rebinds_value");
			sched("host container %d.%s refers to value %d", k, key.c_str(), to); break;
		}
		// fall through
		case 8: if (!H->raws.empty())
		{
			// an entry is given another buffer
			int k = ch(H->nc), to = ch((uint32_t)H->raws.size()); std::string key = sfmt("r%d", (int)ch(2));
			if (!H->m[k].count(key) || H->m[k][key].kind != 3) break;
			wr_addArrayToContainer(&H->cont[k], key.c_str(), H->raws[to].p, (uint32_t)H->raws[to].m.size()); H->m[k][key].idx = to; COUNT("sched.host_rebinds_buffer");
			sched("host container %d.%s is buffer %d", k, key.c_str(), to); break;
		}
		break;
		case 0: case 1: if (!H->vals.empty())
		{
			int k = ch((uint32_t)H->vals.size()); HostVal& v = H->vals[k];
			v.m = numLit(0); if (v.m.kind) wr_makeFloat(v.v, v.m.f); else wr_makeInt(v.v, v.m.i);
			sched("host value %d := %s", k, showSlot(v.m).c_str()); break;
		}
		// fall through
		case 2: if (!H->raws.empty())
		{
			int k = ch((uint32_t)H->raws.size()); Raw& r = H->raws[k]; size_t at = ch((uint32_t)r.m.size()); char b = (char)ch(256);
			r.p[at] = b; r.m[at] = b; sched("host buffer %d[%d] := %d", k, (int)at, (unsigned char)b); break;
		}
		// fall through
		case 3: case 4:
		{
			// add or replace an entry
			int k = ch(H->nc); std::string key = newKey(); Slot s = numLit(0);
			if (H->m[k].count(key) && H->m[k][key].kind >= 2) break;
			if (s.kind) wr_addFloatToContainer(&H->cont[k], key.c_str(), s.f); else wr_addIntToContainer(&H->cont[k], key.c_str(), s.i);
			H->m[k][key] = s; ++H->version; sched("host container %d.%s := %s", k, key.c_str(), showSlot(s).c_str()); break;
		}
		case 5:
		{
			// through the pointer a read gives
			int k = ch(H->nc); std::string key = ch(3) ? sfmt("i%d", (int)ch(3)) : newKey();
			bool had = H->m[k].count(key) != 0;
			if (!had) break;
			Slot& s = H->m[k][key]; if (s.kind > 1) break;
			WRValue* e = wr_getValueFromContainer(H->cont[k], key.c_str());
			if (!e) violate("lost-key", "container %d lost key %s", k, key.c_str());
			checkSlot(0, sfmt("entry %s of container %d", key.c_str(), k).c_str(), s, *e);
			s = numLit(0); if (s.kind) wr_makeFloat(e, s.f); else wr_makeInt(e, s.i);
			sched("host container %d.%s = %s in place", k, key.c_str(), showSlot(s).c_str()); break;
		}
		case 6:
		{
			// a global of a script
			std::vector<Sc*> c; for (size_t i = 0; i < H->sc.size(); ++i) if (!H->sc[i]->dead && H->sc[i]->top && (!H->busy || H->sc[i] == in)) c.push_back(H->sc[i]);
			if (c.empty()) break;
			Sc& s = *c[ch((uint32_t)c.size())]; int what = ch(6); COUNT("sched.host_writes_global");
			WRContext* x = s.s.c;
			if (what == 0) { s.gi = Slot(); s.gi.i = chr_(-999, 999); *WrenchValue(x, "gi").Int() = s.gi.i; }
			else if (what == 1) { s.gf = Slot(); s.gf.kind = 1; s.gf.f = (float)chr_(-99, 99) * 0.5f; *WrenchValue(x, "gf").Float() = s.gf.f; }
			else if (what == 2) { s.gt = Slot(); s.gt.kind = 4; s.gt.s = sfmt("host%d", (int)ch(1000)); wr_makeString(x, s.refs[2], s.gt.s.c_str(), (int)s.gt.s.size()); }
			else if (what == 3) { int i = ch(8); Slot v = numLit(0); while ((int)s.ga.size() <= i) s.ga.push_back(Slot()); s.ga[i] = v; WRValue* e = WrenchValue(x, "ga").asArrayMember(i); if (v.kind) wr_makeFloat(e, v.f); else wr_makeInt(e, v.i); }
			else if (what == 4) { std::string k = sfmt("k%d", (int)ch(ch(3) ? 5 : 40)); Slot v = numLit(0); WRValue* e = WrenchValue(x, "gh").addHashTableValue(k.c_str()); if (!e) violate("wrong-value", "no entry %s can be made in table gh", k.c_str()); if (v.kind) wr_makeFloat(e, v.f); else wr_makeInt(e, v.i); s.gh[k] = v; s.ghIsHash = true; }
			else
			{
				std::vector<int> l; for (size_t i = 0; i < H->inst.size(); ++i) if (!H->inst[i].dead && H->inst[i].sc == s.no) l.push_back((int)i);
				if (l.empty()) break;
				s.gp = l[ch((uint32_t)l.size())]; *s.refs[5] = H->inst[s.gp].v;
			}
			sched("host writes global %d of %s", what, s.s.name); break;
		}
	}
}
// the host makes a struct of a script; false when the constructor was cut off
bool hostInstance(Sc& s)
{
	int na = ch(4); WRValue av[3]; Slot m[3]; 
	for (int i = 0; i < na && i < 3; ++i) { Slot v = numLit(0); if (v.kind) wr_makeFloat(&av[i], v.f); else wr_makeInt(&av[i], v.i); m[i] = v; }
	if (na > 3) na = 3;
	WRValue out; out.init(-77);
	bool susp = s.s.suspended;
	COUNT("sched.host_instance");
	WRValue* r;
	{ CurGuard g(&s.s); r = wr_instanceStruct(&out, s.s.c, "P", na ? av : 0, na); }
	bool now = wr_getYieldInfo(s.s.c);
	if (susp)
	{
		COUNT("fault.instance_while_suspended");
		if (r) violate("instance-suspended", "a struct was made by running %s, which is suspended", s.s.name);
		if (!now) violate("instance-suspended", "asking for a struct resumed %s, which is suspended", s.s.name);
		return false;
	}
	if (!r)
	{
		if (!now) violate("instance-refused", "struct P of %s cannot be made (error %d)", s.s.name, (int)wr_getLastError(s.w));
		// out of slice in the constructor: it is a suspended call like any other
		COUNT("probe.instance_out_of_slice");
		int guard = 0;
		while (wr_getYieldInfo(s.s.c)) { CurGuard g(&s.s); setSlice(s.w, 0); wr_continue(s.s.c); if (++guard > 50) violate("instance-stuck", "a constructor never ends"); }
		return false;
	}
	Inst n; n.v = out; n.sc = s.no; n.at = out.va; n.dead = false;
	n.m[0] = m[0]; n.m[1] = m[1]; n.m[2] = Slot(); n.m[2].i = 41;
	H->inst.push_back(n);
	sched("host makes struct %d of %s with %d arguments", (int)H->inst.size() - 1, s.s.name, na);
	if (ch(2)) { s.gp = (int)H->inst.size() - 1; *s.refs[5] = out; }
	return true;
}

Sc* scOf() { for (size_t i = 0; i < H->sc.size(); ++i) if (&H->sc[i]->s == g_cur) return H->sc[i]; return 0; }
// a read that may insert the key
Slot& entry(int k, std::string const& key) { if (!H->m[k].count(key)) { H->m[k][key] = Slot(); ++H->version; } return target(H->m[k][key]); }

void h_op(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	Sc* s = scOf(); if (!s || c != s->s.c) violate("wrong-context", "a callback arrived for a script that is not running");
	if (argn < 1 || argv[0].asInt() < 0 || argv[0].asInt() >= (int)s->ops.size()) violate("wrong-argument", "an operation reports itself as %d", argn ? argv[0].asInt() : -1);
	Op& o = s->ops[argv[0].asInt()];
	ev("%s: %s", s->s.name, o.text.c_str());
	int k = o.cont == 3 ? 1 : s->which[o.cont];
	switch (o.code)
	{
		case 0: entry(k, o.key) = o.val; break;
		case 1: checkSlot(c, o.text.c_str(), entry(k, o.key), argv[1]); break;
		case 2: { Slot& t = entry(k, o.key); if (t.kind == 0) t.i = (int)((uint32_t)t.i + (uint32_t)o.idx); else if (t.kind == 1) t.f = t.f + (float)o.idx; break; }
		case 3: { Raw& r = H->raws[H->m[k][o.key].idx]; if (o.idx < (int)r.m.size()) { r.m[o.idx] = (char)o.val.i; COUNT("sched.script_writes_raw"); } break; }
		case 4: { Raw& r = H->raws[H->m[k][o.key].idx]; int want = o.idx < (int)r.m.size() ? (unsigned char)r.m[o.idx] : 0; if (argv[1].asInt() != want) violate("wrong-value", "%s gives %d, should be %d", o.text.c_str(), argv[1].asInt(), want); break; }
		case 5: { Raw& r = H->raws[H->m[k][o.key].idx]; if (argv[1].asInt() != (int)r.m.size()) violate("wrong-value", "%s gives %d, should be %d", o.text.c_str(), argv[1].asInt(), (int)r.m.size()); break; }
		case 6: { Slot v = o.val; if (v.kind == 4) v.s += sfmt("%d", argv[1].asInt()); entry(k, o.key) = v; COUNT("sched.script_stores_own"); break; }
		case 7: s->gi = o.val; break;
		case 8: checkSlot(c, o.text.c_str(), o.var == 0 ? s->gi : o.var == 1 ? s->gf : s->gt, argv[1]); break;
		case 9: { while ((int)s->ga.size() <= o.idx) s->ga.push_back(Slot()); s->ga[o.idx] = o.val; break; }
		case 10: { while ((int)s->ga.size() <= o.idx) s->ga.push_back(Slot()); checkSlot(c, o.text.c_str(), s->ga[o.idx], argv[1]); break; }
		case 11: s->gh[o.key] = o.val; s->ghIsHash = true; break;
		case 12: { s->ghIsHash = true; if (!s->gh.count(o.key)) s->gh[o.key] = Slot(); checkSlot(c, o.text.c_str(), s->gh[o.key], argv[1]); break; }
		case 13: if (s->gp >= 0) { Slot v = o.val; if (v.kind == 4) v.s += sfmt("%d", argv[1].asInt()); H->inst[s->gp].m[o.idx] = v; COUNT("sched.script_writes_struct"); } break;
		case 14: if (s->gp >= 0) checkSlot(c, o.text.c_str(), H->inst[s->gp].m[o.idx], argv[1]); break;
		case 15: std::swap(s->which[0], s->which[1]); break;
		case 16: s->gt = o.val; s->gt.s += sfmt("%d", argv[1].asInt()); break;
		case 17: wr_makeInt(&ret, H->version); break;
		case 18: if (argv[2].asInt() == H->version && argv[1].asInt() != (int)H->m[k].size()) violate("wrong-value", "%s: the iteration saw %d entries of %d", o.text.c_str(), argv[1].asInt(), (int)H->m[k].size()); break;
		case 20: break;
		case 22: if (H->m[k].erase(o.key)) { ++H->version; COUNT("sched.script_removes_key"); } break;
		case 21: { int n = argv[1].asInt(); if (n != (int)H->m[k].size()) violate("wrong-value", "%s gives %d, there are %d", o.text.c_str(), n, (int)H->m[k].size()); break; }
	}
	if (o.code != 17)
	{
		if (ch(12) == 11) hostWrite(s);
		if (ch(10) == 9) checkAll();
	}
}

struct Emit
{
	Sc& s; std::string out; bool xArg;
	Emit(Sc& q) : s(q), xArg(false) {}
	int add(Op o, std::string const& t) { o.text = t; s.ops.push_back(o); return (int)s.ops.size() - 1; }
	std::string D(Op& o) { if (ch(5) == 4) { o.cont = 2; return "x"; } if (H->nc > 1 && ch(8) == 7) { o.cont = 3; return "nest"; } o.cont = H->nc > 1 ? ch(2) : 0; return sfmt("d%d", o.cont); }
	// the second container as an entry of the first
	std::string N(std::string const& d) { return d == "nest" ? std::string("c0.c") : d; }
	std::string at(std::string const& d, std::string const& k) { std::string e = N(d); return ch(2) ? e + "." + k : e + "[\"" + k + "\"]"; }
	// a key present in both containers with the same kind, so that the holder may be swapped
	std::string anyKey(int kinds) { int c = ch(3); if (kinds & 1 && c == 0) return sfmt("i%d", (int)ch(3)); if (kinds & 2 && c == 1) return sfmt("v%d", (int)ch(3)); return newKey(); }
	void write(std::string const& st, Op const& o, std::string const& extra = "") { int id = add(o, st); out += "\t" + st + " op( " + sfmt("%d", id) + (extra.empty() ? "" : ", " + extra) + " );\n"; }
	void read(std::string const& ex, Op const& o)
	{
		int id = add(o, ex);
		if (ch(4) == 0) out += sfmt("\tt = %s; op( %d, t );\n", ex.c_str(), id); else out += sfmt("\top( %d, %s );\n", id, ex.c_str());
	}
	void stmt()
	{
		Op o; std::string lit;
		switch (ch(25))
		{
			case 0: case 1: { o.code = 0; std::string d = D(o); o.key = anyKey(3); o.val = numLit(&lit); write(at(d, o.key) + " = " + lit + ";", o); break; }
			case 2: case 3: case 4: { o.code = 1; std::string d = D(o); o.key = ch(5) ? anyKey(3) : sfmt(ch(2) ? "s%d" : "w%d", s.no); read(at(d, o.key), o); break; }
			case 5: { o.code = 2; std::string d = D(o); o.key = anyKey(3); o.idx = 1 + ch(20); std::string e = at(d, o.key); if (ch(3) == 0) { o.idx = 1; write(ch(2) ? "++" + e + ";" : e + "++;", o); } else write(e + sfmt(" += %d;", o.idx), o); break; }
			case 6: case 7: { o.code = 3; std::string d = D(o); int r = ch(2); o.key = sfmt("r%d", r); o.idx = ch(3) ? ch(8) : ch(4) ? ch(80) : ch(80000); o.val.i = ch(256); if (ch(4) == 0) { out += "\tt = " + at(d, o.key) + ";\n"; write(sfmt("t[%d] = %d;", o.idx, o.val.i), o); } else write(at(d, o.key) + sfmt("[%d] = %d;", o.idx, o.val.i), o); break; }
			case 8: case 9: { o.code = 4; std::string d = D(o); o.key = sfmt("r%d", (int)ch(2)); o.idx = ch(3) ? ch(8) : ch(4) ? ch(80) : ch(80000); read(at(d, o.key) + sfmt("[%d]", o.idx), o); break; }
			case 10: { o.code = 5; std::string d = D(o); o.key = sfmt("r%d", (int)ch(2)); read(at(d, o.key) + "._count", o); break; }
			case 11: case 12:
			{
				o.code = 6; std::string d = D(o); o.key = sfmt(ch(3) ? "s%d" : "w%d", s.no);
				// or one that imported code made
				if (s.imp && ch(3) == 0) { o.val.kind = 4; o.val.s = "ig"; out += "\tt = ig( n );\n"; write(at(d, o.key) + " = t;", o, "n"); }
				else if (ch(3)) { o.val.kind = 4; o.val.s = sfmt("own%d_", (int)ch(100)); out += sfmt("\tt = \"%s\" + n;\n", o.val.s.c_str()); write(at(d, o.key) + " = t;", o, "n"); }
				else { o.val.kind = 5; o.val.a.push_back(ch(50)); o.val.a.push_back(ch(50)); out += sfmt("\tvar u%d[] = { %d, %d };\n", (int)s.ops.size(), o.val.a[0], o.val.a[1]); write(at(d, o.key) + sfmt(" = u%d;", (int)s.ops.size()), o); }
				break;
			}
			case 13: { o.code = 7; o.val = numLit(&lit); write("gi = " + lit + ";", o); break; }
			case 14: { o.code = 8; o.var = ch(3); read(o.var == 0 ? "gi" : o.var == 1 ? "gf" : "gt", o); break; }
			case 15: { if (ch(2)) { o.code = 9; o.idx = ch(8); o.val = numLit(&lit); write(sfmt("ga[%d] = ", o.idx) + lit + ";", o); } else { o.code = 10; o.idx = ch(8); read(sfmt("ga[%d]", o.idx), o); } break; }
			case 16: { o.key = sfmt("k%d", (int)ch(ch(3) ? 5 : 40)); if (ch(2)) { o.code = 11; o.val = numLit(&lit); write("gh[\"" + o.key + "\"] = " + lit + ";", o); } else { o.code = 12; read("gh[\"" + o.key + "\"]", o); } break; }
			case 17: { o.code = 13; o.idx = ch(3); if (ch(3)) { o.val = numLit(&lit); } else { o.val.kind = 4; o.val.s = sfmt("mem%d_", (int)ch(100)); lit = "\"" + o.val.s + "\" + n"; } out += "\tif ( p != 0 )\n"; int id = add(o, sfmt("p.%s = ", c_mem[o.idx]) + lit); out += sfmt("\t{ p.%s = %s; op( %d, n ); }\n", c_mem[o.idx], lit.c_str(), id); break; }
			case 18: { o.code = 14; o.idx = ch(3); int id = add(o, sfmt("p.%s", c_mem[o.idx])); out += sfmt("\tif ( p != 0 ) { op( %d, p.%s ); }\n", id, c_mem[o.idx]); break; }
			case 19: { if (H->nc > 1 && ch(2)) { o.code = 15; out += "\tt = d0; d0 = d1;"; write("d1 = t;", o); } else { o.code = 16; o.val.kind = 4; o.val.s = sfmt("txt%d_", (int)ch(100)); write(sfmt("gt = \"%s\" + n;", o.val.s.c_str()), o, "n"); } break; }
			case 20: { Op b; b.code = 17; int id = add(b, "version"); o.code = 18; std::string d = D(o); int e = add(o, "iterate " + d); out += sfmt("\tt = op( %d ); m = 0; u = %s; for ( v : u ) { ++m; }\n\top( %d, m, t );\n", id, N(d).c_str(), e); break; }
			case 21: { o.code = 1; std::string d = D(o); o.key = sfmt(ch(2) ? "s%d" : "w%d", s.no); read(at(d, o.key), o); break; }
			case 22:
			{
				// calls that have nothing to do to a buffer of the host
				o.code = 20; std::string d = D(o); std::string r = at(d, sfmt("r%d", (int)ch(2)));
				static const char* f[] = { "array::truncate( %s, 1 )", "array::insert( %s, 0, 3 )", "list::push_back( %s, 5 )", "list::pop( %s )", "array::remove( %s, 0 )", "array::count( %s )", "stack::push( %s, 2 )", "queue::pop( %s )", "hash::remove( %s, 1 )", "str::strlen( %s )", "std::serialize( %s )", "keep = %s", "ga2[0] = %s", "str::toupper( %s )" };
				std::string t = f[ch(sizeof(f) / sizeof(*f))]; t.replace(t.find("%s"), 2, r); write(t + ";", o); break;
			}
			case 24: { o.code = 22; std::string d = D(o); o.key = newKey(); write("hash::remove( " + N(d) + ", \"" + o.key + "\" );", o); break; }
			case 23: { o.code = 21; std::string d = D(o); read("hash::count( " + N(d) + " )", o); break; }
		}
		if (s.imp && ch(4) == 0) out += "\tz = ig( m );\n";
		if (ch(4) == 0) out += sfmt("\tfor ( var w%d = 0; w%d < %d; ++w%d ) { z = \"g\" + w%d; }\n", (int)s.ops.size(), (int)s.ops.size(), 1 + (int)ch(4), (int)s.ops.size(), (int)s.ops.size());
	}
};

void makeScript(Sc& s)
{
	Emit e(s);
	std::string src = "struct P( x, y ) { var a = x; var b = y; var c = 41; var q = \"\"; ";
	if (ch(3) == 0) src += "for ( var i = 0; i < 3; ++i ) { q = \"q\" + i; } ";
	src += "};\nvar gi = 1; var gf = 1.5; var gt = \"t\"; var ga[] = { 1, 2, 3 }; var gh = { : }; var p = 0; var d0; var d1; var c0; var keep; var ga2[] = { 0, 0 }; var z;\n";
	src += "function bind( x, y, o ) { d0 = x; d1 = y; c0 = o; return 0; }\n";
	int nf = 1 + ch(3);
	for (int f = 0; f < nf; ++f)
	{
		e.out.clear();
		int n = 1 + ch(8);
		for (int i = 0; i < n; ++i) e.stmt();
		src += sfmt("function go%d( n, x )\n{\n\tvar t; var m; var v; var u;\n", f);
		if (ch(2)) src += sfmt("\tfor ( var l = 0; l < %d; ++l )\n\t{\n", 1 + (int)ch(4)) + e.out + "\t}\n"; else src += e.out;
		src += "\treturn n;\n}\n";
	}
	s.p.src = src; for (int f = 0; f < nf; ++f) s.p.functions.push_back(sfmt("go%d", f));
	noteBlock("script", src);
}

} // namespace

void run_C18()
{
	HostWorld W; H = &W; W.busy = false; W.version = 0;
	g_al.fill = 0xa5;
	LiveMark before = alloc_mark();
	W.nc = 1 + ch(2);
	static WRValue hv[12];
	for (int k = 0; k < W.nc; ++k)
	{
		wr_makeContainer(&W.cont[k], ch(3) ? 0 : (uint16_t)ch(60)); W.at[k] = W.cont[k].va;
		for (int i = 0; i < 3; ++i)
		{
			Slot s = numLit(0); std::string key = sfmt("i%d", i);
			if (s.kind) wr_addFloatToContainer(&W.cont[k], key.c_str(), s.f); else wr_addIntToContainer(&W.cont[k], key.c_str(), s.i);
			W.m[k][key] = s;
			HostVal v; v.v = &hv[k * 6 + i]; v.m = numLit(0); if (v.m.kind) wr_makeFloat(v.v, v.m.f); else wr_makeInt(v.v, v.m.i);
			W.vals.push_back(v); Slot r; r.kind = 2; r.idx = (int)W.vals.size() - 1; key = sfmt("v%d", i);
			wr_addValueToContainer(&W.cont[k], key.c_str(), v.v); W.m[k][key] = r;
			// one for each script to keep its own things in
			HostVal o; o.v = &hv[k * 6 + 3 + i]; wr_makeInt(o.v, 0);
			W.vals.push_back(o); r.idx = (int)W.vals.size() - 1; key = sfmt("w%d", i);
			wr_addValueToContainer(&W.cont[k], key.c_str(), o.v); W.m[k][key] = r;
		}
		for (int i = 0; i < 2; ++i)
		{
			Raw r; int n = i ? (ch(8) ? 1 + ch(60) : 4000 + ch(70000)) : 1 + ch(8); r.p = (char*)malloc(n); uint32_t fill = n > 60 ? ch(1 << 20) : 0; for (int j = 0; j < n; ++j) r.m += (char)(n > 60 ? (fill = fill * 1664525u + 1013904223u) >> 24 : ch(256)); memcpy(r.p, r.m.data(), n);
			W.raws.push_back(r); Slot q; q.kind = 3; q.idx = (int)W.raws.size() - 1; std::string key = sfmt("r%d", i);
			wr_addArrayToContainer(&W.cont[k], key.c_str(), r.p, n); W.m[k][key] = q;
		}
	}
	if (W.nc > 1) { Slot q; q.kind = 6; wr_addValueToContainer(&W.cont[0], "c", &W.cont[1]); W.m[0]["c"] = q; }
	int nw = 1 + (ch(4) == 3), ns = 1 + ch(3);
	for (int i = 0; i < nw; ++i) { W.w[i] = newState(200); wr_registerFunction(W.w[i], "op", h_op, 0); wr_setAllocatedMemoryGCHint(W.w[i], ch(3) ? ch(400) : 5000); }
	bool ok = true;
	for (int i = 0; i < ns; ++i)
	{
		Sc* s = new Sc; s->no = i; s->w = W.w[ch(nw)]; if (W.nc < 2) s->which[1] = 0;
		W.sc.push_back(s); s->imp = ch(3) == 0;
		makeScript(*s);
		s->s.logGlobals = false;
		if (!compileTo(s->p.src, s->im)) { COUNT("gen.compile_refused"); ok = false; break; }
		static const char* nm[] = { "A", "B", "C" };
		if (!scriptLoad(s->s, s->w, &s->p, &s->im, nm[i])) violate("load", "a valid image is refused");
		s->s.name = nm[i];
		if (s->imp)
		{
			Bytes& m = s->mim; CurGuard g(&s->s);
			if (!compileTo("function ig( n ) { var q = { n, \"x\" + n }; return \"ig\" + n; }\n", m)) violate("load", "a module does not compile");
			if (!wr_import(s->s.c, &m[0], (int)m.size())) violate("import", "a valid image cannot be imported");
			COUNT("sched.import_before_run");
		}
		s->gi.i = 1; s->gf.kind = 1; s->gf.f = 1.5f; s->gt.kind = 4; s->gt.s = "t";
		for (int j = 0; j < 3; ++j) { Slot v; v.i = j + 1; s->ga.push_back(v); }
		s->ghIsHash = true;
		// the host may ask for its references before or after the script ran
		for (size_t g = 0; g < sizeof(c_globals) / sizeof(*c_globals); ++g) { WRValue* r = wr_getGlobalRef(s->s.c, c_globals[g]); if (!r) violate("global-missing", "global %s has no reference", c_globals[g]); s->refs.push_back(r); }
		if (wr_getGlobalRef(s->s.c, "nosuch")) violate("global-missing", "a global that does not exist has a reference");
	}
	g_phase = "sharing";
	int steps = 0, calls = 0, budgetCalls = 4 + ch(14);
	worldArm(0); bool jit = ch(3) != 0; uint32_t gcp = 1 + ch(40); uint32_t fp = ch(3) ? 0 : ch(12);
	if (ok) while (++steps < 600)
	{
		if (calls >= budgetCalls) { bool any = false; for (size_t i = 0; i < W.sc.size(); ++i) if (!W.sc[i]->dead && W.sc[i]->s.suspended) any = true; if (!any) break; }
		Sc& s = *W.sc[ch((uint32_t)W.sc.size())];
		if (ch(5) == 4) { hostWrite(0); }
		if (ch(30) == 29) { wr_setAllocatedMemoryGCHint(s.w, ch(3) ? ch(400) : 5000); }
		if (s.dead) { if (calls < budgetCalls) ++calls; continue; }
		setSlice(s.w, steps > 400 ? 0 : budget());
		int what = ch(20);
		if (s.top && what == 19 && calls < budgetCalls)
		{
			// the host takes back what this script stored, then ends it
			for (int k = 0; k < W.nc; ++k) for (std::map<std::string, Slot>::iterator i = W.m[k].begin(); i != W.m[k].end(); ++i)
				if (i->first == sfmt("s%d", s.no)) { wr_addIntToContainer(&W.cont[k], i->first.c_str(), 0); i->second = Slot(); }
				else if (i->first == sfmt("w%d", s.no)) { HostVal& v = W.vals[i->second.idx]; wr_makeInt(v.v, 0); v.m = Slot(); }
			if (s.s.suspended) COUNT("fault.destroy_suspended"); else COUNT("fault.destroy");
			sched("destroy %s", s.s.name);
			wr_destroyContext(s.s.c); s.dead = true;
			for (size_t i = 0; i < W.inst.size(); ++i) if (W.inst[i].sc == s.no) W.inst[i].dead = true;
			checkAll(); continue;
		}
		if (s.top && what == 18 && (calls < budgetCalls || !s.s.suspended)) { hostInstance(s); checkAll(); continue; }
		++g_steps; ++s.s.entries;
		WRValue* r; 
		{
			CurGuard g(&s.s); W.busy = true;
			g_world.w = s.w; g_world.jitterGc = jit; g_world.gcPct = gcp; g_world.forcePct = steps > 400 ? 0 : fp;
			if (!s.top && !s.s.suspended) { sched("run %s", s.s.name); r = wr_executeContext(s.s.c); }
			else if (s.s.suspended) { COUNT("sched.resume"); r = wr_continue(s.s.c); }
			else if (!s.bound)
			{
				WRValue a[3]; a[0] = W.cont[s.which[0]]; a[1] = W.nc > 1 ? W.cont[s.which[1]] : W.cont[0]; a[2] = W.cont[0];
				sched("bind %s", s.s.name);
				if (ch(2)) { r = wr_callFunction(s.s.c, "bind", a, 3); }
				else { *s.refs[6] = a[0]; *s.refs[7] = a[1]; *s.refs[8] = a[2]; r = s.refs[6]; }
				s.bound = true;
			}
			else
			{
				WRValue a[2]; wr_makeInt(&a[0], ch(100)); s.which[2] = ch(W.nc); a[1] = W.cont[s.which[2]]; ++calls;
				std::string const& f = pick(s.p.functions);
				sched("call %s.%s", s.s.name, f.c_str());
				r = wr_callFunction(s.s.c, f.c_str(), a, 2);
			}
			g_world.w = 0;
			W.busy = false;
		}
		bool y = wr_getYieldInfo(s.s.c);
		if (!r && !y) violate("fault", "%s stops with error %d", s.s.name, (int)wr_getLastError(s.w));
		s.s.suspended = y;
		if (!y && !s.top) { s.top = true; }
		else if (y && !s.top) { }
		if (ch(2)) checkAll();
	}
	worldOff();
	checkAll();
	for (int i = 0; i < nw; ++i) { setSlice(W.w[i], 0); sched("destroy state %d", i); wr_destroyState(W.w[i]); }
	for (size_t i = 0; i < W.sc.size(); ++i) W.sc[i]->dead = true;
	for (size_t i = 0; i < W.inst.size(); ++i) W.inst[i].dead = true;
	for (int k = 0; k < W.nc; ++k) for (std::map<std::string, Slot>::iterator i = W.m[k].begin(); i != W.m[k].end(); ++i)
		if (i->second.kind == 4 || i->second.kind == 5) { wr_addIntToContainer(&W.cont[k], i->first.c_str(), 0); i->second = Slot(); }
	for (size_t i = 0; i < W.vals.size(); ++i) if (W.vals[i].m.kind > 1) { wr_makeInt(W.vals[i].v, 0); W.vals[i].m = Slot(); }
	g_phase = "after the scripts are gone";
	checkAll();
	for (int k = 0; k < W.nc; ++k) wr_destroyContainer(&W.cont[k]);
	for (size_t k = 0; k < W.raws.size(); ++k) { checkRaw((int)k); free(W.raws[k].p); }
	LiveMark after = alloc_mark();
	if (after.blocks != before.blocks) violate("leak", "%lld blocks are still there after everything was destroyed: %s", (long long)(after.blocks - before.blocks), alloc_describeLive().c_str());
	for (size_t i = 0; i < W.sc.size(); ++i) delete W.sc[i];
	g_nontrivial = true;
	H = 0;
}
