// C17: a script split over imported modules behaves as the same script linked into one, and a
// module that cannot be imported changes nothing.
//
// Every text is generated once with markers: \x02 stands for the module's own global names (bare in
// the modules, prefixed in the linked script), \x03 A \x04 B \x05 for A in the modules and B in the
// linked script. The linked script, run uninterrupted, is the reference model.
#include "world.h"

enum { E_YIELD = 235, E_CRC = 240, E_EARLY = 241 };   // how the linked script names errors only the modules can have

struct Mod
{
	int id; int fail;        // 0 imports fine, 1 top level halts, 2 top level yields, 3 calls a missing function
	std::string decl, init, fns;
	Bytes im; std::string src;
	std::vector<int> subs;   // what it imports itself
};
struct HostOp { int stage, kind, mod, arg; };   // before the stage: 0 import, 1 damaged image, 2 direct call
struct Prog
{
	std::vector<Mod> mods;
	std::string main, linked; Plan plan, lplan;
	std::vector<HostOp> ops;
	std::map<int, int> atYield;      // yield number -> module imported by the host while the script is suspended there
	std::vector<int> pre;            // imported before the script ran at all
	Bytes im, lim; std::vector<Bytes> bad;
	std::vector<std::string> want; std::vector<int> loaded;
	bool ok;
};

static std::string ren(std::string const& t, int mod, bool linked)
{
	std::string o; int alt = 0;
	for (size_t i = 0; i < t.size(); ++i)
	{
		char k = t[i];
		if (k == '\x03') { alt = 1; continue; }
		if (k == '\x04') { alt = 2; continue; }
		if (k == '\x05') { alt = 0; continue; }
		if ((alt == 1 && linked) || (alt == 2 && !linked)) continue;
		if (k == '\x02') { if (linked && mod >= 0) o += sfmt("m%d_", mod); continue; }
		o += k;
	}
	return o;
}
static std::string either(std::string const& a, std::string const& b) { return "\x03" + a + "\x04" + b + "\x05"; }
static int g_tmp;
static std::vector<int> g_avail;      // modules the importer's code can expect to be there

// the code of module `self` (-1 the importer) that uses modules below `limit`
static std::string modStmt(int self, int limit, bool inMain, int depth);
static std::string onCheck(int k) { return either("", sfmt("if ( !m%d_on ) { nosuch( 1 ); } ", k)); }
static std::string val(int self)
{
	switch (ch(6))
	{
		default: return sfmt("%d", (int)ch(90));
		case 1: return "\"w" + sfmt("%d\"", (int)ch(30));
		case 2: return "( \x02s + \"v\" )";
		case 3: return "\x02n";
		case 4: return "{ 1, \x02n, \"t\" }";
		case 5: return "( \"z\" + \x02n )";
	}
}
static std::string scalar(int self) { switch (ch(4)) { default: return sfmt("%d", (int)ch(90)); case 1: return "\x02n"; case 2: return sfmt("( \x02n & %d )", 1 + (int)ch(30)); } }
static std::string modStmt(int self, int limit, bool inMain, int depth)
{
	int k = limit > 0 ? (int)ch(limit) : -1;
	if (self < 0 && k >= 0 && ch(14)) k = g_avail.empty() ? -1 : g_avail[ch((uint32_t)g_avail.size())];
	int t = ++g_tmp;
	if (k < 0 || ch(4) == 0)
	{
		switch (ch(5))
		{
			default: return "log( \x02n, \x02s, \x02" "a, \x02o );\n";
			case 1: return "\x02n = \x02n + 1; \x02" "a[ \x02n & 3 ] = \"own\" + \x02n;\n";
			case 2: return "\x02s = str::left( \x02s + \"q\" + \x02n, 30 );\n";
			case 3: return sfmt("\x02h[ %d ] = \"hh\" + \x02n; log( \x02h );\n", (int)ch(6));
			case 4: return sfmt("var l%d = \"loc\" + \x02n; for ( var i%d = 0; i%d < 3; ++i%d ) { l%d = str::left( l%d + i%d, 20 ); } log( l%d );\n", t, t, t, t, t, t, t, t);
		}
	}
	switch (ch(22))
	{
		case 19: return sfmt("log( m%d_own( %d ) );\n", k, (int)ch(9));
		case 20: return inMain && self < 0 ? sfmt("\x02h[ \"kz\" ] = \"v\" + \x02n; log( \x02h.kz + m%d_cb( %d ) );\n", k, 89 + (int)ch(9)) : sfmt("log( m%d_own( 3 ) );\n", k);
		case 21: return sfmt("\x02h = { 1:\"rh\", \"kz\":\"z\" + \x02n }; log( \x02h.kz + m%d_swap( \x02" "a )._count );\n", k);
		default: return sfmt("log( m%d_add( ", k) + scalar(self) + " ) );\n";
		case 1: return sfmt("\x02s = str::left( m%d_str( \x02s ), 30 );\n", k);
		case 2: return sfmt("log( m%d_put( %d, ", k, (int)ch(5)) + val(self) + " ) );\n";
		case 3: return sfmt("m%d_hput( \"k%d\", ", k, (int)ch(5)) + val(self) + " );\n";
		case 4: return sfmt("var o%d = m%d_new( ", t, k) + scalar(self) + ", " + val(self) + sfmt(" ); log( o%d.a, o%d.b ); \x02o = o%d;\n", t, t, t);
		case 5: return onCheck(k) + sfmt("var o%d = new m%d_S( ", t, k) + scalar(self) + ", " + (ch(2) ? "\"lit\"" : "\x02s") + sfmt(" ); log( o%d ); \x02o = o%d;\n", t, t);
		case 6: return sfmt("log( m%d_garbage( %d ) );\n", k, (int)ch(25));
		case 7: return sfmt("m%d_get();\n", k);
		case 8: return sfmt("log( m%d_rec( %d ) );\n", k, (int)ch(9));
		case 9: return sfmt("\x02o = m%d_swap( \x02o ); log( \x02o );\n", k);
		case 10: return sfmt("var f%d = m%d_arr( %d ); for ( var e%d : f%d ) { log( e%d ); }\n", t, k, (int)ch(5), t, t, t);
		case 11: { int j = self < 0 && !g_avail.empty() ? g_avail[ch((uint32_t)g_avail.size())] : (int)ch(limit); return sfmt("log( m%d_add( m%d_add( 2 ) ) + m%d_rec( 2 ) );\n", k, j, k); }
		case 12: return sfmt("\x02" "a = m%d_arr( %d ); \x02" "a[0] = m%d_str( \"u\" );\n", k, (int)ch(4), k);
		case 13: return sfmt("var r%d = m%d_hash(); log( r%d ); r%d[ \"new\" ] = \x02n; m%d_get();\n", t, k, t, t, k);
		case 14: return sfmt("if ( \x02n > %d ) { m%d_add( 1 ); } else { m%d_hput( 2, \x02n ); }\n", (int)ch(40), k, k);
		case 15: return sfmt("var c%d = 0; while ( c%d < %d ) { c%d += 1; m%d_str( \"w\" + c%d ); }\n", t, t, 1 + (int)ch(6), t, k, t);
		case 16: return sfmt("log( m%d_many( 1, \"2\", \x02n, \x02s, \x02" "a ) );\n", k);
		case 17: return ch(3) ? sfmt("log( m%d_ping() );\n", k) : sfmt("if ( \x02n > %d ) { m%d_bad( %d ); log( \"AFTERFAULT\" ); }\n", (int)ch(120), k, (int)ch(5));
		case 18: return inMain && self < 0 ? sfmt("log( m%d_cb( %d ) );\n", k, (int)ch(9)) : sfmt("log( \x02o, m%d_rec( 1 ) );\n", k);
	}
}
static Mod makeMod(int id, int fail, int sub, std::vector<int> const& below)
{
	Mod m; m.id = id; m.fail = fail; m.subs = below;
	const char* q = "\x02";
	struct G { const char* n; std::string v; } g[] = {
		{ "n", sfmt("%d", (int)ch(50)) }, { "s", sfmt("\"m%d\"", id) }, { "a", sfmt("{ %d, \"a%d\" }", (int)ch(9), id) }, { "h", sfmt("{ 1:\"one%d\", \"k0\":%d }", id, (int)ch(9)) }, { "o", "0" } };
	for (int i = 0; i < 5; ++i) { m.decl += sfmt("var m%d_%s;\n", id, g[i].n); m.init += either("var ", "") + q + g[i].n + " = " + g[i].v + ";\n"; }
	int n = ch(3);
	for (int i = 0; i < n; ++i) m.init += modStmt(id, 0, false, 0);
	if (sub >= 0)
	{
		m.init += either(ch(2) ? sfmt("sys::importByteCode( img( %d ) );", sub) : sfmt("sys::importCompile( src( %d ) );", sub), sfmt("m%d_init();", sub)) + "\n";
		switch (ch(4)) { default: m.init += sfmt("m%d_get();\n", sub); break; case 1: m.init += sfmt("\x02n = m%d_add( 2 ); log( m%d_garbage( 3 ) );\n", sub, sub); break; case 2: m.init += sfmt("\x02o = m%d_new( 1, \x02s );\n", sub); break; }
	}
	m.init += sfmt("log( \"m%d up\", \x02n );\n", id);
	// what it imported goes with it
	if (fail) for (size_t i = 0; i < below.size(); ++i) m.init += either("", sfmt("m%d_on = 0; ", below[i]));
	switch (fail)
	{
		case 1: m.init += sfmt("sys::halt( %d );\n", 130 + id); break;
		case 2: m.init += either("yield( 4 );", sfmt("sys::halt( %d );", E_YIELD)) + "\n"; break;
		case 3: m.init += "nosuch( 3 );\n"; break;
	}
	std::string on = either("", sfmt("if ( !m%d_on ) { nosuch( 1 ); }", id)) + "\n";
	std::string p = sfmt("m%d_", id);
	std::string f;
	const char* ex = ch(2) ? "export " : "";
	f += std::string(ex) + "struct " + p + "S( x, y ) { var a = x; var b = y; var c = 3; };\n";
	f += std::string(ex) + "function " + p + "add( p ) {" + on + "\x02n = \x02n + p; log( \"" + p + "add\", \x02n ); return \x02n; }\n";
	f += std::string(ex) + "function " + p + "str( p ) {" + on + "\x02s = str::left( p + \x02s, 30 ); return \x02s; }\n";
	f += "function " + p + "put( i, v ) {" + on + "\x02" "a[ i & 7 ] = v; return \x02" "a; }\n";
	f += "function " + p + "hput( k, v ) {" + on + "\x02h[ k ] = v; return \x02h._count; }\n";
	f += "function " + p + "get() {" + on + "log( \x02n, \x02s, \x02" "a, \x02h, \x02o ); return 0; }\n";
	f += "function " + p + "hash() {" + on + "return \x02h; }\n";
	f += "function " + p + "new( p, q ) {" + on + "var o = new " + p + "S( p, q ); o.c = \x02n; return o; }\n";
	f += "function " + p + "swap( p ) {" + on + "var t = \x02o; \x02o = p; return t; }\n";
	f += "function " + p + "arr( c ) {" + on + "var r = { \"e\" + \x02n, 5 }; for ( var i = 0; i < c; ++i ) { r[ i ] = \"x\" + i; } return r; }\n";
	f += "function " + p + "garbage( c ) {" + on + "var r = \"\"; for ( var i = 0; i < c; ++i ) { var x = { i, \"g\" + i }; r = str::left( x[1] + r, 12 ); } return r; }\n";
	f += "function " + p + "rec( d ) {" + on + "if ( d < 1 ) { return \x02n; } return " + p + "rec( d - 1 ) + 1; }\n";
	f += "function " + p + "many( a1, a2, a3, a4, a5 ) {" + on + "var l = a2 + a3; log( a1, a2, a3, a4, a5, l ); a1 = 9; return a5; }\n";
	f += "function " + p + "ping() {" + on + sfmt("return %d; }\n", id * 10 + 1);
	f += "function " + p + "cb( p ) {" + on + "var k = \"keep\" + p; var r = maincb( p + 1 ); var g = { k, \"g\" + r }; log( k, " + p + "garbage( 2 ) ); return r; }\n";
	f += "function " + p + "ds( c ) {" + on + "\x02h = { 1:\"ds\" + c }; " + (ch(3) ? p + "garbage( 1 + ( c & 3 ) );" : id ? sfmt("m%d_garbage( 2 );", (int)ch(id)) : std::string("log( 1 );")) + " return c; }\n";
	f += "function " + p + "own( c ) {" + on + "\x02h[ \"kz\" ] = \"w\" + c; return \x02h.kz + " + p + "ds( c ); }\n";
	f += "function " + p + "bad( k ) {" + on + "if ( k == 0 ) { sys::halt( 120 ); } if ( k == 1 ) { nosuch( 1 ); } if ( k == 2 ) { return 1 + " + p + "bad( 2 ); } if ( k == 3 ) { " + either("yield( 1 );", sfmt("sys::halt( %d );", E_YIELD)) + " } if ( k == 4 ) { nolib::nofn( 1 ); } return 0; }\n";
	// a function that uses other modules
	f += "function " + p + "mix( p ) {" + on + "if ( p < 1 ) { return 0; }\n";
	n = 1 + ch(4);
	for (int i = 0; i < n; ++i) f += "\t" + modStmt(id, id, false, 0);
	f += "return \x02n; }\n";
	m.fns = f;
	return m;
}
static void avail(Prog& P, int k) { if (P.mods[k].fail) return; g_avail.push_back(k); for (size_t i = 0; i < P.mods[k].subs.size(); ++i) g_avail.push_back(P.mods[k].subs[i]); }
// the statement by which the script itself imports module k
static std::string importStmt(Prog& P, int k)
{
	Mod& m = P.mods[k];
	if (ch(2)) return either(sfmt("sys::importByteCode( img( %d ) );", k), sfmt("m%d_init();", k)) + "\n";
	return either(sfmt("log( sys::importCompile( src( %d ) ) );", k), sfmt("m%d_init(); log( 0 );", k)) + "\n";
	(void)m;
}
static std::string badImport(Prog& P)
{
	int n = (int)P.mods.size();
	if (ch(2)) return either(sfmt("log( sys::importCompile( src( %d ) ) != 0 );", n + (int)ch(2)), "log( 1 );") + "\n";
	return sfmt("if ( \x02n > %d ) { ", (int)ch(60)) + either(sfmt("sys::importByteCode( img( %d ) );", n + (int)ch(3)), sfmt("sys::halt( %d );", E_CRC)) + " log( \"AFTERFAULT\" ); }\n";
}
static std::string mainStmt(Prog& P, std::vector<int>& todo, bool top)
{
	int nm = (int)P.mods.size();
	if (!todo.empty() && ch(top ? 2 : 4) == 0)
	{
		size_t i = ch((uint32_t)todo.size()); int k = todo[i]; todo.erase(todo.begin() + i);
		std::string t = importStmt(P, k);
		avail(P, k);
		// twice would make two copies of the module, and which one is meant then is not specified
		if (!top) { int z = ++g_tmp; t = sfmt("if ( !did%d ) { did%d = 1; ", k, k) + t + "}\n"; t = sfmt("var before%d = \"loc\" + \x02n; var obj%d = { 1:\x02s };\n", z, z) + t + sfmt("log( before%d, obj%d );\n", z, z); }
		return t;
	}
	if (ch(10) == 0) return badImport(P);
	if (ch(8) == 0) return "log( \x01( \x02n, \x02s ) );\n";
	if (nm && ch(7) == 0) return sfmt("log( m%d_mix( %d ) );\n", g_avail.empty() || ch(14) == 0 ? (int)ch(nm) : g_avail[ch((uint32_t)g_avail.size())], (int)ch(3));
	if (top && nm && ch(30) == 0) { int k = (int)ch(nm); return sfmt("if ( \x02n > %d ) { ", (int)ch(60)) + either(sfmt("m%d_cb( 1 );", k), sfmt("if ( !m%d_on ) { nosuch( 1 ); } sys::halt( %d );", k, E_EARLY)) + " log( \"AFTERFAULT\" ); }\n"; }
	return modStmt(-1, nm, !top, 0);
}
static std::string mapErr(std::string const& l)
{
	int a, e;
	if (sscanf(l.c_str(), "E%d err=%d", &a, &e) == 2 && e >= E_YIELD && e <= E_EARLY) return sfmt("E%d err=%d", a, e == E_YIELD ? (int)WR_ERR_cannot_call_function_context_yielded : e == E_CRC ? (int)WR_ERR_bad_bytecode_CRC : (int)WR_ERR_run_must_be_called_by_itself_first);
	return l;
}
static std::string dumpGlobals(WRContext* c, const char* prefix)
{
	static const char* n[] = { "n", "s", "a", "h", "o" }; std::string d;
	for (int i = 0; i < 5; ++i) { WRValue* v = wr_getGlobalRef(c, sfmt("%s%s", prefix, n[i]).c_str()); d += " " + (v ? dump(c, *v) : std::string("missing")); }
	return d;
}

// one instance of the program; linked: the reference
struct Inst
{
	Prog* P; bool linked; Script s; size_t op; int seenYield; std::map<int, WRContext*> ctx; bool cut, sliced; size_t nPre;
	std::vector<std::string> names;
	Inst(Prog* p, bool l) : P(p), linked(l), op(0), seenYield(0), cut(false), sliced(false), nPre(0) {}
	bool done() { return cut || (s.done() && op >= P->ops.size()); }
	void line(std::string const& t) { logLine(&s, t); }
	// true when the import took place
	bool import(int k, Bytes const& b, bool own)
	{
		CurGuard g(&s);
		const uint8_t* p = &b[0];
		if (own) { uint8_t* cp = (uint8_t*)wr_malloc((unsigned)b.size()); memcpy(cp, p, b.size()); p = cp; }
		WRContext* was = s.c->imported;
		WRContext* i = wr_import(s.c, p, (int)b.size(), own);
		if (!i && s.c->imported != was) violate("failed-import-linked", "an import that failed changed the importer's list of imports");
		if (i) ctx[k] = i;
		return i != 0;
	}
	void hostOp(HostOp const& o)
	{
		sched("%s host op %d mod %d", s.name, o.kind, o.mod);
		std::string r;
		if (o.kind == 0)
		{
			bool ok; int err;
			if (linked) { CurGuard g(&s); ok = wr_callFunction(s.c, sfmt("m%d_init", o.mod).c_str()) != 0; }
			else { ok = import(o.mod, P->mods[o.mod].im, o.arg & 1); COUNT("sched.host_import"); }
			err = ok ? 0 : wr_getLastError(s.w);
			if (err == E_YIELD) err = WR_ERR_cannot_call_function_context_yielded;
			if (!ok && !err) violate("failed-import-unreported", "an import failed and no error is reported");
			r = sfmt("H import m%d err=%d", o.mod, err);
		}
		else if (o.kind == 1)
		{
			int err = WR_ERR_bad_bytecode_CRC;
			if (!linked)
			{
				if (import(-1, P->bad[o.mod % P->bad.size()], false)) violate("damaged-import", "a damaged image was imported");
				err = wr_getLastError(s.w); COUNT("fault.damaged_import");
			}
			r = sfmt("H damaged err=%d", err);
		}
		else
		{
			// the host uses the module directly
			std::map<int, WRContext*>::iterator i = ctx.find(o.mod);
			bool have = linked ? std::find(P->loaded.begin(), P->loaded.end(), o.mod) != P->loaded.end() : i != ctx.end();
			if (!have) { line(sfmt("H direct m%d none", o.mod)); return; }
			WRContext* c = linked ? s.c : i->second;
			WRValue a[2]; wr_makeInt(&a[0], o.arg); wr_makeInt(&a[1], 7);
			static const char* f[] = { "add", "put", "new", "arr", "mix", "hash" };
			WRValue* v; { CurGuard g(&s); v = wr_callFunction(c, sfmt("m%d_%s", o.mod, f[o.arg % 6]).c_str(), a, 2); }
			if (!linked && !v && wr_getYieldInfo(c)) { cut = true; COUNT("probe.direct_call_out_of_slice"); return; }
			int err = wr_getLastError(s.w); if (!v && err == E_YIELD) err = WR_ERR_cannot_call_function_context_yielded;
			r = v ? "H direct " + dump(c, *v) : sfmt("H direct err=%d", err);
			COUNT("sched.host_direct_call");
		}
		line(r);
		if (linked && o.kind == 0 && r.find("err=0") != std::string::npos) P->loaded.push_back(o.mod);
	}
	bool step()
	{
		if (done()) return false;
		if (!s.started && nPre < P->pre.size())
		{
			int k = P->pre[nPre++];
			if (linked) P->loaded.push_back(k);
			if (!linked) { if (!import(k, P->mods[k].im, k & 1)) { if (sliced && wr_getLastError(s.w) == WR_ERR_cannot_call_function_context_yielded) cut = true; else violate("import-refused", "a valid module is refused with error %d", wr_getLastError(s.w)); } COUNT("sched.import_before_run"); }
			return true;
		}
		if (s.suspended && !s.forced && s.yields != seenYield)
		{
			seenYield = s.yields;
			std::map<int, int>::iterator i = P->atYield.find(seenYield);
			if (linked && i != P->atYield.end()) P->loaded.push_back(i->second);
			if (!linked && i != P->atYield.end())
			{
				sched("%s import m%d while suspended", s.name, i->second); COUNT("sched.import_while_suspended");
				if (!import(i->second, P->mods[i->second].im, i->second & 1)) { if (sliced && wr_getLastError(s.w) == WR_ERR_cannot_call_function_context_yielded) { cut = true; return true; } violate("import-refused", "a valid module is refused with error %d", wr_getLastError(s.w)); }
				return true;
			}
		}
		if (s.started && !s.suspended && op < P->ops.size() && P->ops[op].stage <= s.stage)
		{
			if (!s.topFailed) hostOp(P->ops[op]); 
			++op; return true;
		}
		if (s.done()) { op = P->ops.size(); return false; }
		size_t n = s.log.size();
		scriptStep(s, 0);
		(void)n;
		return true;
	}
};
static bool makeProg(Prog& P)
{
	g_tmp = 0; P.ok = false; g_avail.clear();
	int nm = 1 + ch(4);
	std::vector<int> sub(nm, -1); std::vector<bool> nested(nm, false);
	for (int i = 1; i < nm; ++i) if (ch(4) == 0) { int k = (int)ch(i); if (!nested[k]) { sub[i] = k; nested[k] = true; COUNT("gen.nested_import"); } }
	for (int i = 0; i < nm; ++i)
	{
		int f = ch(8) == 0 ? 1 + ch(3) : 0; std::vector<int> below;
		if (sub[i] >= 0) { below = P.mods[sub[i]].subs; below.push_back(sub[i]); }
		P.mods.push_back(makeMod(i, f, sub[i], below));
		if (sub[i] >= 0 && P.mods[sub[i]].fail) P.mods[i].fail = P.mods[sub[i]].fail;
	}
	std::vector<int> todo, yieldMods; std::string linkedPre;
	for (int i = 0; i < nm; ++i)
	{
		if (nested[i]) continue;
		switch (ch(6))
		{
			default: todo.push_back(i); break;
			case 3: if (P.mods[i].fail) todo.push_back(i); else { P.pre.push_back(i); avail(P, i); linkedPre += sfmt("m%d_init();\n", i); } break;
			case 4: { HostOp o = { (int)ch(4), 0, i, (int)ch(2) }; P.ops.push_back(o); break; }
			case 5: if (P.mods[i].fail) todo.push_back(i); else yieldMods.push_back(i); break;
		}
	}
	static const char* gn[] = { "n", "s", "a", "h", "o" }; static const char* gv[] = { "3", "\"main\"", "{ 1, \"ma\" }", "{ 1:\"mh\" }", "0" };
	std::string head, top;
	for (int i = 0; i < 5; ++i) head += std::string("var ") + gn[i] + " = " + gv[i] + ";\n";
	for (int i = 0; i < nm; ++i) head += sfmt("var did%d = 0;\n", i);
	int nf = 1 + ch(3), yn = 0; std::string fns = "function maincb( p ) { \x02n = \x02n + p; if ( p > 90 ) { \x02h = { 1:\"dropped\" }; } log( \"cb\", \x02n ); return \x02n; }\n";
	// a call order in which modules are mostly there: the top level and the first function import
	int n = 2 + ch(8);
	for (int i = 0; i < n; ++i) top += mainStmt(P, todo, true);
	for (size_t i = 0; i < P.ops.size(); ++i) avail(P, P.ops[i].mod);
	if (!yieldMods.empty() && ch(2))
	{
		// the script suspends at a known place: the first yield of all is here
		int k = yieldMods.back(); yieldMods.pop_back(); avail(P, k);
		fns += "function mwrap( p ) { " + either("", sfmt("m%d_init();", k)) + " return p; }\nfunction susp( q ) { var l = \"loc\" + \x02n; var m = { 1, l }; var r = mwrap( \x01( l ) ); log( l, m, r, q ); return q; }\n";
		top = (ch(2) ? std::string("log( \"keep\" + \x02n, { 1, \x02n }, mwrap( \x01( \"import here\" ) ) );\n") : sfmt("log( \"pre\" + \x02n, susp( \"arg\" + \x02n ) );\n")) + top; P.atYield[++yn] = k;
	}
	for (size_t i = 0; i < yieldMods.size(); ++i) todo.push_back(yieldMods[i]);
	for (int i = 0; i < nf; ++i)
	{
		fns += sfmt("function go%d( p ) {\n", i);
		int m = 1 + ch(7);
		for (int j = 0; j < m; ++j) fns += "\t" + mainStmt(P, todo, false);
		fns += "return \x02s; }\n";
	}
	int nc = 1 + ch(4);
	for (int i = 0; i < nc; ++i) { Call c; c.fn = sfmt("go%d", (int)ch(nf)); Arg a; a.kind = 0; a.i = ch(9); a.f = 0; c.args.push_back(a); P.plan.calls.push_back(c); }
	int no = ch(4);
	for (int i = 0; i < no; ++i) { HostOp o = { (int)ch(5), 1 + (int)ch(2), (int)ch(nm), (int)ch(30) }; P.ops.push_back(o); }
	struct L { static bool lt(HostOp const& a, HostOp const& b) { return a.stage < b.stage; } };
	std::stable_sort(P.ops.begin(), P.ops.end(), L::lt);
	P.plan.src = head + ren(top, -1, false) + ren(fns, -1, false);
	// a module's functions come before what uses them only in the linked text
	std::string l;
	for (int i = 0; i < nm; ++i) l += P.mods[i].decl + sfmt("var m%d_on = 0;\n", i);
	l += head;
	for (int i = 0; i < nm; ++i) l += sfmt("function m%d_init() {\n", i) + ren(P.mods[i].init, i, true) + sfmt("m%d_on = 1; return 1; }\n", i) + ren(P.mods[i].fns, i, true);
	l += linkedPre + ren(top, -1, true) + ren(fns, -1, true);
	P.lplan = P.plan; P.lplan.src = l;
	P.plan.replySeed = P.lplan.replySeed = ch(1000);
	noteBlock("importer", P.plan.render(true));
	noteBlock("the same, linked", P.lplan.render(true));
	int er = 0; if (!compileTo(P.plan.render(true), P.im, WR_INCLUDE_GLOBALS, &er) || !compileTo(P.lplan.render(true), P.lim, WR_INCLUDE_GLOBALS, &er)) { note("compile error %d", er); COUNT("gen.compile_refused"); return false; }
	g_imgs.clear(); g_srcs.clear();
	for (int i = 0; i < nm; ++i)
	{
		Mod& m = P.mods[i];
		m.src = ren(m.init, i, false) + ren(m.fns, i, false);
		noteBlock(sfmt("module %d", i).c_str(), m.src);
		if (!compileTo(m.src, m.im, ch(2) ? WR_INCLUDE_GLOBALS : WR_INCLUDE_GLOBALS | WR_EMBED_DEBUG_CODE)) { COUNT("gen.compile_refused"); return false; }
		g_imgs.push_back(m.im); g_srcs.push_back(m.src);
	}
	for (int i = 0; i < 3; ++i)
	{
		Bytes b = P.mods[ch(nm)].im; 
		switch (ch(4)) { case 0: b[ch((uint32_t)b.size())] ^= 1 << ch(8); break; case 1: b.resize(1 + ch((uint32_t)b.size() - 1)); break; case 2: for (size_t j = b.size() / 2; j < b.size(); ++j) b[j] = 0; break; default: b[b.size() - 1 - ch(4)] += 1; break; }
		P.bad.push_back(b); g_imgs.push_back(b);
	}
	g_srcs.push_back("function unfinished( { return 1; }"); g_srcs.push_back("var e = \"open");
	P.ok = true;
	return true;
}
void run_C17()
{
	g_al.fill = 0x5c;
	Prog P;
	if (!makeProg(P)) return;
	LiveMark mk = alloc_mark();
	g_phase = "linked";
	std::string lGlobals;
	{
		WRState* w = newState(700);
		wr_setAllocatedMemoryGCHint(w, 0x7fffffff);
		Inst L(&P, true); L.s.logGlobals = false;
		if (!scriptLoad(L.s, w, &P.lplan, &P.lim, "linked")) violate("load", "a valid image is refused");
		int guard = 0;
		while (!L.done() && ++guard < 3000) L.step();
		for (size_t i = 0; i < L.s.log.size(); ++i) P.want.push_back(mapErr(L.s.log[i]));
		wr_setAllocatedMemoryGCHint(w, 4000);
		wr_destroyState(w);
	}
	noteBlock("linked history", joinLog(P.want));
	g_phase = "imported"; g_nontrivial = true;
	WRState* w = newState(700);
	worldArm(w);
	g_world.jitterGc = ch(3) != 0; g_world.gcPct = 1 + ch(40);
	if (!g_world.jitterGc) wr_setAllocatedMemoryGCHint(w, ch(2) ? ch(3000) : 0x7fffffff);
	int ni = 1 + (ch(2) ? ch(3) : 0), steps = 0;
	bool slices = false;
#ifdef WRENCH_TIME_SLICES
	slices = ch(3) == 0;
#endif
	int destroyAt = ch(3) == 0 ? (int)ch(60) : -1;
	std::vector<Inst*> in; static const char* nm[] = { "A", "B", "C" };
	for (int i = 0; i < ni; ++i)
	{
		Inst* x = new Inst(&P, false); x->s.logGlobals = false; x->sliced = slices;
		if (!scriptLoad(x->s, w, &P.plan, &P.im, nm[i])) violate("load", "a valid image is refused");
		in.push_back(x);
	}
	for (;;)
	{
		std::vector<Inst*> ready;
		for (size_t i = 0; i < in.size(); ++i) if (!in[i]->done()) ready.push_back(in[i]);
		if (ready.empty()) break;
		if (++steps > 3000) violate("no-progress", "the importing scripts do not finish");
		Inst* x = ready[ch((uint32_t)ready.size())];
		setSlice(w, slices && steps < 400 ? (ch(3) ? 20 + ch(3000) : budget()) : 0);
		sched("enter %s", x->s.name);
		x->step();
		if (steps == destroyAt && in.size() > 1)
		{
			size_t k = ch((uint32_t)in.size());
			sched("destroy %s", in[k]->s.name); COUNT("sched.destroy_importer");
			wr_destroyContext(in[k]->s.c);
			delete in[k]; in.erase(in.begin() + k);
		}
	}
	setSlice(w, 0);
	g_phase = "comparing";
	for (size_t i = 0; i < in.size(); ++i)
	{
		Inst& x = *in[i]; std::vector<std::string> const& got = x.s.log;
		size_t n = std::min(got.size(), P.want.size()), d = 0;
		while (d < n && got[d] == P.want[d]) ++d;
		bool outOfSlice = x.cut;
		if (d < got.size())
		{
			int a, e = 0;
			if (sscanf(got[d].c_str(), "E%d err=%d", &a, &e) != 2) { const char* q = strstr(got[d].c_str(), "err="); if (got[d][0] == 'H' && q) e = atoi(q + 4); }
			if (x.sliced && e == WR_ERR_cannot_call_function_context_yielded) { outOfSlice = true; COUNT("probe.import_out_of_slice"); }
			else violate("differs-from-linked", "script %s: observation %d is <%s>, linked it is <%s>", x.s.name, (int)d, got[d].substr(0, 300).c_str(), d < P.want.size() ? P.want[d].substr(0, 300).c_str() : "nothing");
		}
		else if (d < P.want.size() && !outOfSlice) violate("differs-from-linked", "script %s: <%s> is missing", x.s.name, P.want[d].substr(0, 300).c_str());
		// what was imported is still there, whatever happened on the way
		if (!x.s.topFailed && x.s.started && !x.s.suspended)
			for (std::map<int, WRContext*>::iterator k = x.ctx.begin(); k != x.ctx.end(); ++k) if (k->first >= 0)
			{
				if (wr_getYieldInfo(k->second)) continue;    // a direct call that ran out of its slice
				CurGuard g(&x.s);
				WRValue* v = wr_callFunction(k->second, sfmt("m%d_ping", k->first).c_str());
				if (!v || !v->isInt() || v->asInt() != k->first * 10 + 1) violate("import-lost", "module %d of %s no longer answers (error %d)", k->first, x.s.name, wr_getLastError(w));
				COUNT("probe.pinged");
			}
	}
	worldOff();
	wr_setAllocatedMemoryGCHint(w, 4000);
	while (!in.empty())
	{
		size_t k = ch((uint32_t)in.size());
		if (ch(3)) wr_destroyContext(in[k]->s.c);
		delete in[k]; in.erase(in.begin() + k);
	}
	wr_destroyState(w);
	if (g_al.liveBlocks != mk.blocks) violate("leak", "%lld blocks are left: %s", (long long)(g_al.liveBlocks - mk.blocks), alloc_describeLive().c_str());
}
