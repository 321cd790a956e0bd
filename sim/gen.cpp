#include "gen.h"

enum T { TI, TF, TS, TAI, TAS, TAA, THI, THS, THA, TT0, TT1, T_COUNT };

struct Var { std::string name; T t; bool ro; };
struct Fn { std::string name; std::vector<T> params; T ret; int cost; bool recursive; };

struct Gen
{
	GenCfg cfg;
	std::vector<Var> globals;
	std::vector<Var> locals;
	std::vector<Fn> fns;
	std::vector<std::string> allGlobals;
	bool inFn;
	int uid;
	long cost;          // cost of the unit being generated
	long mult;
	long cap;
	int noCalls;        // inside foreach over a shared container
	unsigned frozen;    // bitmask of container types that may not be mutated
	int loopDepth;      // >0: break/continue allowed
	int switchDepth;
	bool canGoto;
	T retType;
	int blockDepth;
	bool fault;
	int exprDepth;
	int fnVarCount;
	int hidden;
	bool inForeach;

	Gen() : inFn(false), uid(0), cost(0), mult(1), cap(0), noCalls(0), frozen(0), loopDepth(0), switchDepth(0), canGoto(true), retType(TI), blockDepth(0), fault(false), exprDepth(0), fnVarCount(0), hidden(0), inForeach(false) {}

	void charge(long n) { cost += n * mult; }
	bool afford(long n) { return cost + n * mult <= cap; }

	bool enabled(T t)
	{
		switch (t)
		{
			case TF: return cfg.floats;
			case TS: case TAS: return cfg.strings;
			case THI: case THA: return cfg.hashes;
			case THS: return cfg.hashes && cfg.strings;
			case TT0: case TT1: return cfg.structs;
			default: return true;
		}
	}
	T randType(bool simple = false)
	{
		static const T order[] = { TI, TS, TAI, THI, TT0, TF, TAS, THS, TAA, TT1, THA };
		for (int k = 0; k < 8; ++k) { T t = order[ch(simple ? 3 : 11)]; if (enabled(t)) return t; }
		return TI;
	}
	std::string fresh(const char* p) { return sfmt("%s%d", p, uid++); }

	std::vector<Var*> vars(T t, bool assignable)
	{
		std::vector<Var*> r;
		for (size_t i = 0; i < globals.size(); ++i) if (globals[i].t == t && (!assignable || !globals[i].ro)) r.push_back(&globals[i]);
		for (size_t i = 0; i < locals.size(); ++i) if (locals[i].t == t && (!assignable || !locals[i].ro)) r.push_back(&locals[i]);
		return r;
	}
	bool frozenT(T t) { return (frozen >> t) & 1; }

	std::string strLit() { static const char* w[] = { "x", "ab", "wrench", "", "hello world", "Z9", "  pad ", "0123456789abcdef0123456789" }; return std::string("\"") + w[ch(8)] + "\""; }
	std::string key(bool strOk) { if (strOk && chance(1, 3)) return sfmt("\"k%d\"", ch(6)); return sfmt("%d", ch(10)); }

	// ------------------------------------------------------------ expressions
	std::string E(T t)
	{
		++exprDepth;
		std::string r = E_(t);
		--exprDepth;
		return r;
	}
	// arguments travel by reference: a loop counter must not be reachable by the callee
	bool isRo(std::string const& e)
	{
		for (size_t i = 0; i < globals.size(); ++i) if (globals[i].ro && globals[i].name == e) return true;
		for (size_t i = 0; i < locals.size(); ++i) if (locals[i].ro && locals[i].name == e) return true;
		return false;
	}
	// a bare variable, or "(x = i)" whose value is i itself, is passed by reference, and the
	// callee could then stop the caller's loop counter from ever reaching its end
	std::string byValue(std::string const& e)
	{
		std::string v = e;
		for (;;)
		{
			while (v.size() > 2 && v[0] == '(' && v[v.size() - 1] == ')') v = v.substr(1, v.size() - 2);
			size_t n = 0; while (n < v.size() && (isalnum((unsigned char)v[n]) || v[n] == '_')) ++n;
			if (n && !v.compare(n, 3, " = ")) v.erase(0, n + 3); else break;
		}
		return isRo(v) ? "(" + e + " + 0)" : e;
	}
	std::string callFn(Fn const& f)
	{
		std::string s = f.name + "(";
		for (size_t i = 0; i < f.params.size(); ++i)
		{
			if (i) s += ", ";
			if (f.recursive && i == 0) s += sfmt("%d", ch(4)); else s += byValue(E(f.params[i]));
		}
		charge(f.cost + 3);
		return s + ")";
	}
	bool findFn(T t, Fn& out)
	{
		if (noCalls || exprDepth > 3) return false;
		std::vector<int> c;
		for (size_t i = 0; i < fns.size(); ++i) if (fns[i].ret == t && afford(fns[i].cost + 3)) c.push_back((int)i);
		if (c.empty()) return false;
		out = fns[c[ch((uint32_t)c.size())]];
		return true;
	}
	std::string leaf(T t)
	{
		std::vector<Var*> v = vars(t, false);
		switch (t)
		{
			case TI: if (!v.empty() && ch(3)) return pick(v)->name; { static const int lits[] = { 0, 1, 2, 3, 7, 100, -1, 255, 1000, 32767, -40000, 123456789 }; return sfmt("%d", lits[ch(12)]); }
			case TF: if (!v.empty() && ch(3)) return pick(v)->name; return sfmt("%d.%d", ch(20), ch(4) * 25);
			case TS: if (!v.empty() && ch(3)) return pick(v)->name; return strLit();
			default: if (!v.empty()) return pick(v)->name; return "";
		}
	}
	std::string E_(T t)
	{
		bool deep = exprDepth <= 3;
		Fn f;
		switch (t)
		{
			case TI:
			{
				if (!deep) return leaf(TI);
				switch (ch(28))
				{
					default: return leaf(TI);
					case 1: case 2: { static const char* o[] = { "+", "-", "*", "&", "|", "^" }; std::string a = E(TI); const char* op = o[ch(6)]; return "(" + a + " " + op + " " + E(TI) + ")"; }
					case 3: { static const char* o[] = { "<", ">", "<=", ">=", "==", "!=" }; std::string a = E(TI); const char* op = o[ch(6)]; return "(" + a + " " + op + " " + E(TI) + ")"; }
					case 4: { std::string a = E(TI); return ch(2) ? "(" + a + " && " + E(TI) + ")" : "(" + a + " || " + E(TI) + ")"; }
					case 5:
					{
						std::string a = E(TI); const char* op = ch(2) ? " % " : " / ";
						switch (ch(4)) { default: return "(" + a + op + sfmt("%d)", 1 + ch(9)); case 2: return "(" + a + op + E(TI) + ")"; case 3: return ch(2) ? "((1 << 31)" + std::string(op) + "(0 - 1))" : "(" + a + op + "(" + leaf(TI) + " & 1))"; }
					}
					case 6: return "(" + E(TI) + (ch(2) ? " << " : " >> ") + sfmt("%d)", ch(5));
					case 7: return ch(2) ? "!(" + E(TI) + ")" : "-(" + E(TI) + ")";
					case 8: { std::vector<Var*> v = vars(TAI, false); if (v.empty() || frozenT(TAI)) return leaf(TI); std::string n = pick(v)->name; return n + "[" + E(TI) + " & 7]"; }
					case 9: { std::vector<Var*> v = vars(THI, false); if (v.empty() || frozenT(THI)) return leaf(TI); std::string n = pick(v)->name; return n + "[" + key(true) + "]"; }
					case 10: { static const T c[] = { TAI, TAS, THI, THS, TAA, TS }; T k = c[ch(6)]; std::vector<Var*> v = vars(k, false); if (v.empty()) return leaf(TI); return pick(v)->name + "._count"; }
					case 11: { T k = ch(2) ? TT1 : TT0; std::vector<Var*> v = vars(k, false); if (v.empty()) return leaf(TI); return pick(v)->name + ".a"; }
					case 12: if (findFn(TI, f)) return callFn(f); return leaf(TI);
					case 13: if (cfg.hostcalls) { charge(1); return "hv(" + E(randType(true)) + ", " + E(TI) + ")"; } return leaf(TI);
					case 14: { std::vector<Var*> v = vars(THI, false); if (v.empty()) return leaf(TI); std::string n = pick(v)->name; return n + "._exists(" + key(true) + ")"; }
					case 15: if (cfg.strings && cfg.strlib) return "str::strlen(" + E(TS) + ")"; return leaf(TI);
					case 16: if (cfg.floats) return "(int)(" + E(TF) + ")"; return leaf(TI);
					case 17: if (cfg.strings) { std::string a = E(TS); return "(" + a + (ch(2) ? " == " : " != ") + E(TS) + ")"; } return leaf(TI);
					case 18: { std::vector<Var*> v = vars(TI, true); if (v.empty()) return leaf(TI); std::string n = pick(v)->name; static const char* p[] = { "%s++", "%s--", "++%s", "--%s" }; return "(" + sfmt(p[ch(4)], n.c_str()) + ")"; }
					case 19: if (cfg.yields && !noCalls && chance(1, 3)) return "hv(" + yieldExpr() + sfmt(", %d)", ch(5)); return leaf(TI);
					case 20: { std::vector<Var*> v = vars(TI, false); if (v.size() < 2) return leaf(TI); static const char* o[] = { "*", "+", "-", "%", "/", "&", "|" }; std::string a = pick(v)->name; const char* op = o[ch(7)]; return "(" + a + " " + op + " " + pick(v)->name + ")"; }
					case 21: return ch(2) ? "~(" + E(TI) + ")" : "~" + leaf(TI);
					case 22: { std::string v = leaf(TI), c = leaf(TI); return "(" + v + (ch(2) ? " >> " : " << ") + "(" + c + " & 15))"; }
					case 23:
						if (!cfg.strings || !cfg.strlib) return leaf(TI);
						switch (ch(4))
						{
							case 0: return "str::chr(" + E(TS) + sfmt(", %d)", "abx0 h"[ch(6)]);
							case 1: return sfmt("str::tol(\"%d\", %d)", ch(1000), 10 + ch(2) * 6);
							case 2: { static const char* o[] = { "isdigit", "isalpha", "isspace" }; return sfmt("(str::%s(%d) != 0)", o[ch(3)], "a5 Zz~"[ch(6)]); }
							default: { std::vector<Var*> v = vars(TS, false); if (v.empty()) return leaf(TI); return pick(v)->name + sfmt("[%d]", ch(3)); }
						}
					case 27:
					{
						if (!cfg.strings || !cfg.strlib) return leaf(TI);
						if (!ch(3)) return sfmt("std::rand(%d + (std::srand(%d) & 0))", 5 + (int)ch(1000), 1 + (int)ch(99999));
						static const char* o[] = { "f0", "f1", "hv", "nosuchfunc1", "nosuchfunc2", "str::mid", "mkS0", "nolib::nofn" }; return sfmt("sys::isFunction(\"%s\")", o[ch(8)]);
					}
					case 24: { std::vector<Var*> v = vars(TI, true); if (v.empty()) return leaf(TI); std::string n = pick(v)->name; static const char* o[] = { "=", "+=", "-=", "*=", "|=", "&=", "^=" }; const char* op = o[ch(7)]; return "(" + n + " " + op + " " + (ch(2) ? sfmt("%d", ch(70)) : leaf(TI)) + ")"; }
					case 25: { std::vector<Var*> v = vars(THI, false); if (v.empty() || !cfg.containers) return leaf(TI); std::string n = pick(v)->name; return "hash::exists(" + n + ", " + key(true) + ")"; }
					case 26: return "hc::K";
				}
			}
			case TF:
			{
				if (!deep) return leaf(TF);
				switch (ch(11))
				{
					default: return leaf(TF);
					case 1: case 2: { static const char* o[] = { "+", "-", "*" }; std::string a = E(TF); const char* op = o[ch(3)]; return "(" + a + " " + op + " " + E(TF) + ")"; }
					case 3: return "(float)(" + E(TI) + ")";
					case 4: if (findFn(TF, f)) return callFn(f); return leaf(TF);
					case 5: return "(" + E(TI) + " + " + E(TF) + ")";
					case 6: { static const char* o[] = { "floor", "ceil", "sqrt", "sin", "abs", "trunc", "exp" }; return sfmt("math::%s(", o[ch(7)]) + (ch(2) ? E(TF) : leaf(TF)) + ")"; }
					case 7: return "-(" + E(TF) + ")";
					case 8: { std::vector<Var*> v = vars(TF, true); if (v.empty()) return leaf(TF); std::string n = pick(v)->name; static const char* o[] = { "=", "+=", "-=", "*=", "/=" }; const char* op = o[ch(5)]; return "(" + n + " " + op + " " + sfmt("%d.5)", ch(9)); }
					case 9: return ch(2) ? "math::atan2(" + leaf(TF) + ", 1.5)" : std::string("hc::F");
					case 10: return "(" + E(TF) + " / " + leaf(TF) + ")";
				}
			}
			case TS:
			{
				if (!deep) return leaf(TS);
				switch (ch(21))
				{
					default: return leaf(TS);
					case 1: case 2: case 3: { std::string a = E(TS); return "(" + a + " + " + E(TS) + ")"; }
					case 4: if (cfg.strlib) return "str::format(\"%d:%s\", " + E(TI) + ", " + E(TS) + ")"; return leaf(TS);
					case 5: if (cfg.strlib) return sfmt("str::mid(%s, %d, %d)", E(TS).c_str(), ch(3), ch(5)); return leaf(TS);
					case 6: if (cfg.strlib) return sfmt("str::%s(%s)", ch(2) ? "toupper" : "trim", E(TS).c_str()); return leaf(TS);
					case 7: { std::vector<Var*> v = vars(TAS, false); if (v.empty() || frozenT(TAS)) return leaf(TS); std::string n = pick(v)->name; return "(\"\" + " + n + "[" + E(TI) + " & 3])"; }
					case 8: { std::vector<Var*> v = vars(THS, false); if (v.empty() || frozenT(THS)) return leaf(TS); std::string n = pick(v)->name; std::string k = key(true); return "(\"q\" + " + n + "[" + k + "])"; }
					case 9: { T k = ch(2) ? TT1 : TT0; std::vector<Var*> v = vars(k, false); if (v.empty()) return leaf(TS); return "(" + pick(v)->name + ".b + \"!\")"; }
					case 10: if (findFn(TS, f)) return callFn(f); return leaf(TS);
					case 11: if (cfg.hostcalls) { charge(1); return "hs(" + E(randType(true)) + ")"; } return leaf(TS);
					case 12: if (cfg.strlib) { std::string a = E(TS); return "str::concat(" + a + ", " + E(TS) + ", " + E(TS) + ")"; } return leaf(TS);
					case 13: if (cfg.strlib) { std::string a = E(TS); return sfmt("str::left(%s, %d)", a.c_str(), ch(12)); } return leaf(TS);
					case 14: if (cfg.hostcalls) { charge(1); return "hi(" + E(TS) + ")"; } return leaf(TS);
					case 15: if (cfg.strlib) { std::string a = E(TS); return sfmt("str::insert(%s, %s, %d)", a.c_str(), E(TS).c_str(), ch(4)); } return leaf(TS);
					case 16: if (cfg.containers && chance(1, 2)) { std::string a = randContainerVar(); if (!a.empty()) return "std::serialize(" + a + ")"; } return leaf(TS);
					case 17: if (cfg.strlib) return sfmt("str::%s(%s)", ch(2) ? "tolower" : "trimleft", E(TS).c_str()); return leaf(TS);
					case 18: if (cfg.strlib) { std::string a = E(TS); switch (ch(3)) { case 0: return sfmt("str::right(%s, %d)", a.c_str(), ch(9)); case 1: return "str::trimright(" + a + ")"; default: return sfmt("str::substr(%s, %d, %d)", a.c_str(), ch(3), ch(5)); } } return leaf(TS);
					case 19: if (cfg.strlib) { std::string a = E(TI); switch (ch(3)) { case 0: return "str::format(\"%5d|%-6s|%04x|%c\", " + a + ", " + leaf(TS) + ", " + leaf(TI) + sfmt(", %d)", 65 + ch(20)); case 1: return "str::format(\"%40d%40s%40d\", " + a + ", " + leaf(TS) + ", 3)"; default: return "str::format(\"%s%s%s%s\", " + leaf(TS) + ", \"0123456789012345678901234567890123456789012345678901234567890123456789\", " + leaf(TS) + ", " + leaf(TS) + ")"; } } return leaf(TS);
					case 20: if (cfg.floats) return "(\"f\" + " + leaf(TF) + ")"; return "(\"i\" + " + leaf(TI) + ")";
				}
			}
			case TAI:
			case TAS:
			{
				T el = t == TAI ? TI : TS;
				if (chance(1, 3)) { std::string s = leaf(t); if (!s.empty()) return s; }
				if (chance(1, 5) && findFn(t, f)) return callFn(f);
				if (t == TAI && chance(1, 8) && !frozenT(TAA)) { std::vector<Var*> v = vars(TAA, false); if (!v.empty()) { std::string n = pick(v)->name; return n + sfmt("[%d]", ch(2)); } }
				if (t == TAI && chance(1, 8) && !frozenT(THA)) { std::vector<Var*> v = vars(THA, false); if (!v.empty()) { std::string n = pick(v)->name; return n + sfmt("[%d]", ch(2)); } }
				if (chance(1, 10) && cfg.hostcalls) { std::string s = leaf(t); if (!s.empty()) { charge(1); return "hi(" + s + ")"; } }
				int n = 1 + ch(4);
				std::string s = "{ ";
				for (int i = 0; i < n; ++i) { if (i) s += ", "; s += exprDepth > 2 ? leaf(el) : el == TS ? ES() : E(el); }
				return s + " }";
			}
			case TAA:
			{
				if (chance(1, 3)) { std::string s = leaf(t); if (!s.empty()) return s; }
				std::string s = "{ ";
				for (int i = 0; i < 2; ++i) { if (i) s += ", "; std::string x = leaf(TAI); s += x.empty() || ch(2) ? sfmt("{ %d, %d }", ch(9), ch(9)) : x; }
				return s + " }";
			}
			case THA:
			{
				if (chance(1, 3)) { std::string s = leaf(t); if (!s.empty()) return s; }
				charge(4);
				std::string a = E(TAI);
				return "mkHA(" + a + ", " + E(TAI) + ")";
			}
			case THI:
			case THS:
			{
				if (chance(1, 3)) { std::string s = leaf(t); if (!s.empty()) return s; }
				if (chance(1, 5) && findFn(t, f)) return callFn(f);
				std::string s = "{ ";
				int n = 1 + ch(4);
				std::set<std::string> used;
				for (int i = 0; i < n; ++i)
				{
					std::string k = key(true);
					if (used.count(k)) continue;
					if (!used.empty()) s += ", ";
					used.insert(k);
					s += k + ":";
					if (t == THI) s += exprDepth > 2 ? leaf(TI) : E(TI);
					else s += exprDepth > 2 ? leaf(TS) : ES();
				}
				return s + " }";
			}
			case TT0:
			{
				if (chance(1, 3)) { std::string s = leaf(t); if (!s.empty()) return s; }
				if (chance(1, 5) && findFn(t, f)) return callFn(f);
				charge(4);
				std::string a = E(TI), b = E(cfg.strings ? TS : TI);
				return "mkS0(" + a + ", " + b + ", " + E(TAI) + ")";
			}
			case TT1:
			{
				if (chance(1, 3)) { std::string s = leaf(t); if (!s.empty()) return s; }
				std::string a = E(TI);
				charge(4); return "mkS1(" + a + ", " + E(cfg.strings ? TS : TI) + ")";
			}
			default: return "0";
		}
	}
	std::string randContainerVar()
	{
		static const T c[] = { TAI, TAS, THI, THS, TAA };
		T k = c[ch(5)];
		std::vector<Var*> v = vars(k, false);
		return v.empty() ? std::string() : pick(v)->name;
	}
	std::string yieldExpr()
	{
		charge(2);
		int n = ch(12) < 11 ? ch(4) : 4 + ch(30);
		std::string s = "\x01(";
		for (int i = 0; i < n; ++i) { if (i) s += ", "; s += n > 3 && i > 1 ? sfmt("%d", i * 3) : E(randType(true)); }
		return s + ")";
	}

	// a value that a freshly declared variable of this type can take
	std::string init(T t)
	{
		switch (t)
		{
			case TI: return sfmt("%d", ch(100));
			case TF: return sfmt("%d.5", ch(10));
			case TS: return strLit();
			case TAI: return sfmt("{ %d, %d, %d }", ch(9), ch(9), ch(9));
			case TAS: return "{ " + strLit() + ", " + strLit() + " }";
			case TAA: return "{ { 1, 2 }, { 3 } }";
			case THI: return sfmt("{ 1:%d, \"k0\":%d }", ch(9), ch(9));
			case THS: return "{ 1:" + strLit() + ", \"k1\":" + strLit() + " }";
			case THA: return "mkHA({ 1, 2 }, { 3 })";
			case TT0: return "new S0()";
			case TT1: return sfmt("new S1(%d, %s)", ch(9), cfg.strings ? "\"m\"" : "4");
			default: return "0";
		}
	}

	// strings kept in variables stay bounded however often the code runs
	std::string ES() { std::string e = E(TS); return mult > 1 || inFn ? "str::left(" + e + ", 60)" : e; }
	// a whole right-hand side: the only place the language accepts 'new'
	std::string R(T t)
	{
		if (t == TT0 && ch(2)) { if (ch(2)) return "new S0()"; return sfmt("new S0() { a = %d, c = %d, }", ch(50), ch(50)); }
		if (t == TT1 && ch(2)) { std::string a = E(TI); return "new S1(" + a + ", " + E(cfg.strings ? TS : TI) + ")"; }
		return t == TS ? ES() : E(t);
	}

	// ------------------------------------------------------------ statements
	std::string ind() { return std::string(blockDepth, '\t'); }

	std::string block(int n)
	{
		size_t keepL = locals.size(), keepG = globals.size();
		++blockDepth;
		std::string s;
		for (int i = 0; i < n; ++i) s += stmt();
		--blockDepth;
		locals.resize(keepL); globals.resize(keepG);
		return s;
	}
	std::string declare(T t, std::string const& value, bool ro = false, const char* prefix = "v")
	{
		std::string n = fresh(prefix);
		Var v; v.name = n; v.t = t; v.ro = ro;
		std::string s = ind() + "var " + n + " = " + value + ";\n";
		if (inFn) { locals.push_back(v); ++fnVarCount; } else { globals.push_back(v); allGlobals.push_back(n); }
		return s;
	}
	bool roomForVar() { return inFn ? fnVarCount < 9 : (int)allGlobals.size() + hidden < 90; }

	std::string logStmt()
	{
		charge(1);
		int n = 1 + ch(2);
		std::string s = ind() + "log(";
		for (int i = 0; i < n; ++i) { if (i) s += ", "; s += E(randType()); }
		return s + ");\n";
	}
	std::string faultStmt()
	{
		fault = true;
		int k = ch(7);
		std::string s;
		// the marker tells the history checker which error must follow
		switch (k)
		{
			case 0: { int c = 101 + ch(155); s = sfmt("log(\"FAULT\", %d); sys::halt(%d);", c, c); break; }
			case 1: s = sfmt("log(\"FAULT\", %d); %s;", (int)WR_ERR_function_not_found, ch(2) ? "nosuchfunc(1, 2)" : "nosuchfunc2()"); break;
			case 2: s = sfmt("log(\"FAULT\", %d); nolib::nofunc(3);", (int)WR_ERR_lib_function_not_found); break;
			case 3: { static const int bad[] = { 5, 100, 256, -3, 70000 }; s = sfmt("log(\"FAULT\", %d); sys::halt(%d);", (int)WR_ERR_USER_err_out_of_range, bad[ch(5)]); break; }
			case 5: if (cfg.structs && roomForVar()) { std::string n = fresh("nf"); if (inFn) ++fnVarCount; else ++hidden; s = sfmt("log(\"FAULT\", %d); var ", (int)WR_ERR_hash_not_found) + n + " = new S0() { a = 1, nosuch = 2, };"; break; }
			case 6: s = sfmt("log(\"FAULT\", %d); log(nolib::NOCONST + %d);", (int)WR_ERR_library_constant_not_loaded, ch(3)); break;
			case 4: s = sfmt("log(\"FAULT\", %d); log(1 + nosuch3(%d));", (int)WR_ERR_function_not_found, ch(9)); break;
		}
		s += " log(\"AFTERFAULT\");";
		return ind() + "if ( " + E(TI) + " > " + sfmt("%d", ch(50)) + " ) { " + s + " }\n";
	}

	// a library call with the wrong number or kind of arguments
	std::string junkCall()
	{
		static const char* f[] = {
			"array::clear", "array::count", "array::remove", "array::insert", "array::truncate", "hash::clear", "hash::count", "hash::add", "hash::remove", "hash::exists",
			"list::clear", "list::count", "list::peek", "list::pop", "list::pop_front", "list::pop_back", "list::push", "list::push_front", "list::push_back",
			"queue::clear", "queue::count", "queue::push", "queue::pop", "queue::peek", "stack::clear", "stack::count", "stack::push", "stack::pop", "stack::peek",
			"math::sin", "math::atan2", "math::log", "math::pow", "math::fmod", "math::sqrt", "math::floor", "math::abs", "math::ldexp", "math::deg2rad", "math::iscale",
			"std::serialize", "std::deserialize",
			"str::strlen", "str::sprintf", "str::format", "str::isspace", "str::isdigit", "str::isalpha", "str::mid", "str::chr", "str::tolower", "str::toupper", "str::tol", "str::concat",
			"str::left", "str::trunc", "str::right", "str::substr", "str::trimright", "str::trimleft", "str::trim", "str::insert", "sys::isFunction" };
		if (!roomForVar() || !cfg.hashes || !cfg.strings || !cfg.strlib) return logStmt();
		std::string a = fresh("ju"), s;
		if (inFn) ++fnVarCount; else allGlobals.push_back(a);
		static const char* ini[] = { "{ 1, 2, 3 }", "\"some text\"", "{ 1:2, \"k\":\"v\" }", "7", "2.5", "{ \"x\", 5, \"yy\" }", "\"%d %s\"" };
		s = ind() + "var " + a + " = " + ini[ch(7)] + ";\n";
		int n = ch(5);
		std::string c = std::string(f[ch(sizeof(f) / sizeof(f[0]))]) + "(";
		// a container in the place of a count counts as its hash: billions
		bool counts = c.find("clear") != std::string::npos || c.find("insert") != std::string::npos || c.find("truncate") != std::string::npos;
		bool number = s.find("= 7;") != std::string::npos || s.find("= 2.5;") != std::string::npos;
		for (int i = 0; i < n; ++i)
		{
			if (i) c += ", ";
			switch (!i ? 0 : !counts ? ch(6) : number ? ch(2) : 1)
			{
				default: c += a; break;
				case 1: c += sfmt("%d", (int)ch(12) - 3); break;
				case 2: c += strLit(); break;
				case 3: c += sfmt("%d.5", ch(9)); break;
				case 4: c += "{ 4, \"z\" }"; break;
				case 5: c += a + sfmt("[%d]", ch(3)); break;
			}
		}
		c += ")";
		charge(1);
		s += ind() + (ch(3) ? "log(" + c + ");\n" : c + ";\n");
		return s + (ch(2) ? ind() + "log(" + a + ");\n" : std::string());
	}
	std::string loopHead(std::string& tail, long iters)
	{
		return "";
	}

	// a condition as programmers write it: the compiler has fused compare-and-branch codes for these
	std::string cond()
	{
		static const char* o[] = { "<", ">", "<=", ">=", "==", "!=" };
		std::vector<Var*> v = vars(TI, false);
		if (v.empty() || !ch(3)) return E(TI);
		std::string a = pick(v)->name;
		const char* op = o[ch(6)];
		switch (ch(4))
		{
			case 0: return a + " " + op + sfmt(" %d", ch(120));
			case 1: return a + " " + op + " " + E(TI);
			case 2: return E(TI) + " " + op + " " + a;
			default: return a + " " + op + " " + pick(v)->name;
		}
	}
	// enough code to need a long jump over it
	std::string pad()
	{
		std::vector<Var*> v = vars(TI, true);
		if (v.empty() || !chance(1, 5)) return "";
		std::string n = pick(v)->name, s = ind() + "\t" + n + " = " + n;
		for (int i = 0; i < 26; ++i) s += sfmt(" ^ %d", 70001 + i);
		return s + ";\n";
	}

	std::string stmt()
	{
		charge(1);
		if (cfg.faults && ch(100) >= (uint32_t)(100 - cfg.faultPct)) return faultStmt();
		if (cfg.yieldPct && !noCalls && ch(100) >= (uint32_t)(100 - cfg.yieldPct))
		{
			charge(2); std::string s = yieldExpr();
			switch (ch(4)) { default: return ind() + "log(" + s + ");\n"; case 1: return ind() + s + ";\n"; case 2: return ind() + "log(" + E(TI) + ", " + s + ");\n"; case 3: if (roomForVar()) return ind() + sfmt("log(\"r\" + %s);\n", s.c_str()); return ind() + s + ";\n"; }
		}
		bool nest = blockDepth < 4;
		if (cfg.orphans && !noCalls && chance(1, 6)) return orphan();
		switch (ch(46))
		{
			default:
			case 0: case 1: return logStmt();
			case 2: case 3: if (roomForVar()) { T t = randType(); std::string v = R(t); return declare(t, v); } return logStmt();
			case 4: case 5:
			{
				T t = randType();
				if (frozenT(t)) return logStmt();
				std::vector<Var*> v = vars(t, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				return ind() + n + " = " + R(t) + ";\n";
			}
			case 6:
			{
				std::vector<Var*> v = vars(TI, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				static const char* o[] = { "+=", "-=", "*=", "|=", "&=", "^=", "/=", "%=", "<<=", ">>=" };
				int k = ch(10);
				return ind() + n + " " + o[k] + " " + (k >= 8 ? sfmt("%d", ch(8)) : k >= 6 && ch(2) ? sfmt("%d", ch(9)) : E(TI)) + ";\n";
			}
			case 7:
			{
				if (frozenT(TS)) return logStmt();
				std::vector<Var*> v = vars(TS, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				// strings may double: keep them bounded
				if (mult > 1 || inFn) return ind() + n + " = " + ES() + ";\n";
				return ind() + n + " += " + strLit() + ";\n";
			}
			case 8: case 9:
			{
				if (!nest) return logStmt();
				std::string s = ind() + "if ( " + cond() + " )\n" + ind() + "{\n" + pad() + block(1 + ch(3)) + ind() + "}\n";
				if (chance(1, 3)) s += ind() + "else if ( " + cond() + " )\n" + ind() + "{\n" + pad() + block(1 + ch(2)) + ind() + "}\n";
				if (ch(2)) s += ind() + "else\n" + ind() + "{\n" + block(1 + ch(2)) + ind() + "}\n";
				return s;
			}
			case 10: case 11: case 12: case 13: return nest ? loop() : logStmt();
			case 14: case 15: return nest && cfg.foreachs ? foreach_() : logStmt();
			case 16: return nest && cfg.switches ? switch_() : logStmt();
			case 17:
			{
				if (noCalls || fns.empty()) return logStmt();
				Fn const& f = fns[ch((uint32_t)fns.size())];
				if (!afford(f.cost + 3)) return logStmt();
				return ind() + callFn(f) + ";\n";
			}
			case 18: case 19:
			{
				T k = ch(2) ? TAS : TAI;
				if (frozenT(k)) return logStmt();
				std::vector<Var*> v = vars(k, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				std::string i = E(TI);
				return ind() + n + "[" + i + " & 7] = " + (k == TAI ? E(TI) : ES()) + ";\n";
			}
			case 20: case 21:
			{
				T k = ch(2) ? THS : THI;
				if (frozenT(k)) return logStmt();
				std::vector<Var*> v = vars(k, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				std::string kk = chance(1, 4) ? "(" + E(TI) + ") & 63" : key(true);
				return ind() + n + "[" + kk + "] = " + (k == THI ? E(TI) : ES()) + ";\n";
			}
			case 22:
			{
				T k = ch(2) ? THS : THI;
				if (frozenT(k)) return logStmt();
				std::vector<Var*> v = vars(k, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				return ind() + n + "._remove(" + key(true) + ");\n";
			}
			case 23:
			{
				T k = ch(2) ? TT1 : TT0;
				std::vector<Var*> v = vars(k, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				switch (ch(3))
				{
					case 0: return ind() + n + ".a = " + E(TI) + ";\n";
					case 1: return ind() + n + ".b = " + (cfg.strings ? ES() : E(TI)) + ";\n";
					default: return ind() + n + ".c = " + E(TAI) + ";\n";
				}
			}
			case 24:
			{
				if (!cfg.containers) return logStmt();
				T k = ch(2) ? TAS : TAI;
				if (frozenT(k)) return logStmt();
				std::vector<Var*> v = vars(k, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				T el = k == TAI ? TI : TS;
				switch (ch(5))
				{
					case 0: return mult > 12 ? logStmt() : ind() + "list::push_back(" + n + ", " + (el == TS ? ES() : E(el)) + ");\n";
					case 1: return mult > 12 ? logStmt() : ind() + "list::push_front(" + n + ", " + (el == TS ? ES() : E(el)) + ");\n";
					case 2: return ind() + "log(list::pop(" + n + "));\n";
					case 3: return ind() + "log(list::pop_back(" + n + "));\n";
					default: return ind() + "log(array::count(" + n + "));\n";
				}
			}
			case 25:
			{
				// a computed container value thrown away or logged: pure garbage
				T t = randType();
				return ind() + "log(" + E(t) + ");\n";
			}
			case 26: if (cfg.yields && !noCalls) { charge(2); std::string s = yieldExpr(); if (ch(2)) return ind() + "log(" + s + ");\n"; return ind() + s + ";\n"; } return logStmt();
			case 27:
			{
				if (!cfg.gotos || !canGoto || loopDepth || switchDepth || !nest || !roomForVar() || frozen) return logStmt();
				// counted backward goto
				std::string l = fresh("lbl");
				int n = 1 + ch(4);
				std::string s = declare(TI, "0", true, "j");
				std::string c = inFn ? locals.back().name : globals.back().name;
				bool oldg = canGoto; canGoto = false; mult *= n + 1;
				s += ind() + l + ":\n" + block(1 + ch(2));
				mult /= n + 1; canGoto = oldg;
				s += ind() + c + " = " + c + " + 1;\n";
				s += ind() + "if ( " + c + sfmt(" < %d ) { goto ", n) + l + "; }\n";
				return s;
			}
			case 28:
				if (loopDepth > 0 && !switchDepth) return ind() + "if ( " + E(TI) + sfmt(" == %d ) { ", ch(5)) + (ch(2) || inForeach ? "break" : "continue") + "; }\n";
				return logStmt();
			case 29:
				if (inFn && chance(1, 2)) return ind() + "if ( " + E(TI) + sfmt(" > %d ) { return ", ch(100)) + E(retType) + "; }\n";
				if (!inFn && blockDepth == 0 && cfg.bigHash && !frozenT(THI) && chance(1, 2))
				{
					std::vector<Var*> v = vars(THI, true);
					if (v.empty()) return logStmt();
					std::string n = pick(v)->name;
					int cnt = 20 + ch(60);
					charge(cnt);
					if (!roomForVar()) return logStmt();
					std::string s = declare(TI, "0", true, "w");
					std::string c = globals.back().name;
					return s + ind() + "while ( " + c + sfmt(" < %d ) { ", cnt) + n + "[" + c + sfmt(" * %d] = ", 1 + (int)ch(7)) + c + "; " + c + " = " + c + " + 1; }\n";
				}
				return logStmt();
			case 30: case 31:
			{
				// a number that becomes a container because it is used as one
				if (!roomForVar() || !cfg.hashes) return logStmt();
				std::string s = declare(TI, ch(2) ? sfmt("%d", ch(9)) : E(TI), true, "q");
				std::string n = inFn ? locals.back().name : globals.back().name;
				if (inFn) locals.pop_back(); else globals.pop_back();
				switch (ch(4))
				{
					case 0: case 1:
					{
						std::string v = cfg.strings && ch(2) ? ES() : E(TI);
						s += ind() + n + ".mm = " + v + ";\n";
						if (ch(2)) s += ind() + n + ".nn = " + n + ".mm;\n";
						return s + ind() + "log(" + n + ".mm, " + n + "._count);\n";
					}
					case 2: s += ind() + n + sfmt("[%d] = ", ch(9)) + (cfg.strings && ch(2) ? ES() : E(TI)) + ";\n"; return s + ind() + "log(" + n + ");\n";
					default: { std::string k = sfmt("[\"k%d\"]", ch(5)); s += ind() + n + k + " = " + (cfg.strings && ch(2) ? ES() : E(TI)) + ";\n"; return s + ind() + "log(" + n + k + ");\n"; }
				}
			}
			case 32:
			{
				if (!roomForVar()) return logStmt();
				std::string n = fresh("a");
				if (inFn) ++fnVarCount; else allGlobals.push_back(n);
				int sz = 1 + ch(6);
				std::string s = ind() + "var " + n + sfmt("[%d];\n", sz);
				s += ind() + n + sfmt("[%d] = ", ch(sz)) + (cfg.strings && ch(2) ? ES() : E(TI)) + ";\n";
				return s + ind() + "log(" + n + ");\n";
			}
			case 33: case 34:
			{
				if (!cfg.containers) return logStmt();
				T k = ch(2) ? TAS : TAI;
				if (frozenT(k)) return logStmt();
				std::vector<Var*> v = vars(k, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				T el = k == TAI ? TI : TS;
				const char* lib = ch(2) ? "stack" : "queue";
				switch (ch(9))
				{
					case 0: case 1: return mult > 12 ? logStmt() : ind() + lib + "::push(" + n + ", " + (el == TS ? ES() : E(el)) + ");\n";
					case 2: return ind() + "log(" + lib + "::pop(" + n + "));\n";
					case 3: return ind() + "log(" + lib + "::peek(" + n + "));\n";
					case 4: return ind() + "log(" + lib + "::count(" + n + "));\n";
					case 5: return ind() + "array::truncate(" + n + sfmt(", %d);\n", ch(6));
					case 6: return mult > 12 ? logStmt() : ind() + "array::insert(" + n + sfmt(", %d, %d);\n", ch(6), 1 + ch(2));
					case 7: return ind() + "array::remove(" + n + sfmt(", %d, %d);\n", ch(6), 1 + ch(3));
					default: return ind() + (ch(2) ? "array" : lib) + "::clear(" + n + (ch(2) ? sfmt(", %d", ch(5)) : std::string()) + ");\n";
				}
			}
			case 35:
			{
				if (!cfg.containers) return logStmt();
				T k = ch(2) ? THS : THI;
				if (frozenT(k)) return logStmt();
				std::vector<Var*> v = vars(k, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				std::string val = k == THI ? E(TI) : ES();
				switch (ch(4))
				{
					case 0: case 1: return ind() + "hash::add(" + n + ", " + val + ", " + key(true) + ");\n";
					case 2: return ind() + "log(hash::count(" + n + "));\n";
					default: return ind() + (ch(3) ? "hash::remove(" + n + ", " + key(true) + ")" : "hash::clear(" + n + ")") + ";\n";
				}
			}
			case 36: case 37:
			{
				// in place, on a part of something; the right side changes nothing itself
				static const char* o[] = { "+=", "-=", "*=", "|=", "&=", "^=" };
				std::string op = o[ch(6)], val = sfmt("%d", ch(9));
				switch (ch(4))
				{
					case 0: { std::vector<Var*> v = vars(TAI, true); if (v.empty() || frozenT(TAI)) return logStmt(); return ind() + pick(v)->name + sfmt("[%d] ", ch(4)) + op + " " + val + ";\n"; }
					case 1: { std::vector<Var*> v = vars(THI, true); if (v.empty() || frozenT(THI)) return logStmt(); std::string n = pick(v)->name; return ind() + n + "[" + key(true) + "] " + op + " " + val + ";\n"; }
					case 2: { T k = ch(2) ? TT1 : TT0; std::vector<Var*> v = vars(k, true); if (v.empty()) return logStmt(); return ind() + pick(v)->name + ".a " + op + " " + val + ";\n"; }
					default: { T k = ch(2) ? TT1 : TT0; std::vector<Var*> v = vars(k, true); if (v.empty()) return logStmt(); return ind() + pick(v)->name + sfmt(".a%s;\n", ch(2) ? "++" : "--"); }
				}
			}
			case 38:
			{
				std::vector<Var*> v = vars(TAA, true);
				if (v.empty() || frozenT(TAA) || frozenT(TAI)) return logStmt();
				std::string n = pick(v)->name;
				std::string e = leaf(TI);
				return ind() + n + sfmt("[%d][%d] = ", ch(2), ch(4)) + e + ";\n";
			}
			case 42:
			{
				if (frozenT(TS) || !cfg.strings) return logStmt();
				std::vector<Var*> v = vars(TS, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				switch (ch(4))
				{
					case 0: return ind() + n + sfmt("._remove(%d);\n", ch(9));
					case 1: return cfg.strlib ? ind() + "str::sprintf(" + n + ", \"%d-%s\", " + E(TI) + ", " + leaf(TS) + ");\n" : logStmt();
					case 2: return ind() + n + sfmt("[%d] = %d;\n", ch(4), 65 + ch(26));
					default: return ind() + "log(" + n + "._count, " + n + ");\n";
				}
			}
			case 43:
			{
				// far elements; assignments within assignments
				if (!roomForVar()) return logStmt();
				if (ch(2))
				{
					std::vector<Var*> v = vars(TI, true);
					if (v.size() < 2) return logStmt();
					std::string a = pick(v)->name, b = pick(v)->name;
					return ind() + a + " = " + b + " = " + E(TI) + ";\n";
				}
				std::string n = fresh("fa");
				if (inFn) ++fnVarCount; else allGlobals.push_back(n);
				std::string s = ind() + "var " + n + sfmt("[%d];\n", 290 + ch(60)), v = cfg.strings && ch(2) ? ES() : E(TI);
				s += ind() + n + sfmt("[%d] = ", 270 + ch(20)) + v + ";\n";
				s += ind() + n + sfmt("[%d] = %d;\n", 360 + ch(20), ch(9));
				return s + ind() + "log(" + n + sfmt("[%d], ", 270 + ch(20)) + n + "._count);\n" + ind() + n + " = 0;\n";
			}
			case 45: return junkCall();
			case 44:
			{
				std::vector<Var*> v = vars(TF, true);
				if (v.empty()) return logStmt();
				std::string n = pick(v)->name;
				static const char* o[] = { "+=", "-=", "*=", "/=" };
				const char* op = o[ch(4)];
				return ind() + n + " " + op + " " + (ch(2) ? E(TF) : sfmt("%d.25", ch(5))) + ";\n";
			}
			case 40: case 41:
			{
				// data that reaches itself; only its plain parts are looked at
				if (!roomForVar() || !cfg.hashes) return logStmt();
				std::string n = fresh("cy"), m = fresh("cz");
				if (inFn) fnVarCount += 2; else { allGlobals.push_back(n); allGlobals.push_back(m); }
				std::string v = cfg.strings && ch(2) ? ES() : E(TI), s;
				std::string mid = chance(1, 3) ? ind() + "log(" + R(randType()) + ");\n" : std::string();
				switch (ch(4))
				{
					case 0:
						s = ind() + "var " + n + "[3];\n" + ind() + n + "[0] = " + v + ";\n" + ind() + n + "[1] = " + n + ";\n" + mid;
						if (ch(2)) s += ind() + n + sfmt("[1][1][2] = %d;\n", ch(9));
						s += ind() + "log(" + n + "[0], " + n + "[1][1][2]);\n";
						break;
					case 1:
						s = ind() + "var " + n + " = { \"v\" : 1, \"n\" : 2 };\n" + ind() + n + "[\"v\"] = " + v + ";\n" + ind() + n + "[\"n\"] = " + n + ";\n" + mid;
						s += ind() + "log(" + n + "[\"n\"][\"n\"][\"v\"]);\n";
						break;
					case 2:
						s = ind() + "var " + n + "[2];\n" + ind() + "var " + m + " = { 1 : 1 };\n" + ind() + n + "[0] = " + m + ";\n" + ind() + m + "[1] = " + n + ";\n" + ind() + n + "[1] = " + v + ";\n" + mid;
						s += ind() + "log(" + n + "[0][1][1]);\n";
						break;
					default:
					{
						// two kinds in one ring
						s = ind() + "var " + n + "[2];\n" + ind() + n + "[0] = " + v + ";\n" + ind() + n + "[1] = " + n + ";\n" + ind() + "var " + m + " = { \"p\" : 0 };\n" + ind() + m + "[\"p\"] = " + n + ";\n" + ind() + n + "[1] = " + m + ";\n" + mid;
						s += ind() + "log(" + m + "[\"p\"][1][\"p\"][0]);\n";
						break;
					}
				}
				if (ch(2)) s += ind() + n + " = " + sfmt("%d;\n", ch(9));
				return s;
			}
			case 39:
			{
				// parts of containers handed on: arguments travel as references
				if (noCalls || !cfg.hostcalls) return logStmt();
				switch (ch(3))
				{
					case 0: { std::vector<Var*> v = vars(TAI, false); if (v.empty() || frozenT(TAI)) return logStmt(); std::string n = pick(v)->name; charge(1); return ind() + "log(hi(" + n + sfmt("[%d]), hv(", ch(4)) + n + "[0], " + leaf(TI) + "));\n"; }
					case 1: { std::vector<Var*> v = vars(THS, false); if (v.empty() || frozenT(THS)) return logStmt(); std::string n = pick(v)->name; charge(1); return ind() + "log(hi(" + n + "[" + key(true) + "]));\n"; }
					default: { T k = ch(2) ? TT1 : TT0; std::vector<Var*> v = vars(k, false); if (v.empty()) return logStmt(); std::string n = pick(v)->name; charge(1); return ind() + "log(hi(" + n + ".b), hs(" + n + ".c));\n"; }
				}
			}
		}
	}

	// a container that only references into it still hold, while others come and go
	std::string orphan()
	{
		if (!afford(20)) return logStmt();
		charge(20);
		std::string s = ind(), el[3]; bool hash = false;
		int k = ch(cfg.structs ? 5 : 4);
		std::string a = E(TI), b = ES();
		switch (k)
		{
			case 0: s += "oc = { " + a + ", " + b + ", " + E(TAI) + " };\n"; el[0] = "oc[0]"; el[1] = "oc[1]"; el[2] = "oc[2]"; break;
			case 1: s += "oc = { 1:" + a + ", \"k0\":" + b + ", 3:" + ES() + " };\n"; el[0] = "oc[1]"; el[1] = ch(2) ? "oc.k0" : "oc[\"k0\"]"; el[2] = "oc[3]"; hash = true; break;
			case 2: s += "oc = mkHA(" + E(TAI) + ", { " + a + ", " + b + " });\n"; el[0] = "oc[1][0]"; el[1] = "oc[1][1]"; el[2] = "oc[0]"; hash = true; break;
			case 3: s += "log(0);\n"; el[0] = "ocA(" + a + ", " + b + ")[1]"; el[1] = "ocA(" + b + ", " + a + ")[2]"; el[2] = "mkHA({ " + a + ", 2 }, { 3 })[0]"; break;
			case 4: s += "oc = mkS0(" + a + ", " + b + ", " + E(TAI) + ");\n"; el[0] = "oc.a"; el[1] = "oc.b"; el[2] = "oc.c"; break;
		}
		std::string e = el[ch(3)], f = el[ch(3)];
		s += ind();
		switch (ch(hash ? 10 : k == 3 ? 6 : 7))
		{
			case 6: s += "log(" + e + " + " + (k == 1 || k == 4 ? "ocZ()" : k == 2 ? "ocY()" : "ocX()") + ");\n"; break;
			case 7: s += ind() + e + " = ocY() + " + leaf(TI) + ";\n"; break;
			case 0: s += "log(ocD(" + e + "));\n"; break;
			case 1: s += "ocD(" + e + ");\n"; break;
			case 2: s += "log(ocR(" + e + ", " + f + "));\n"; break;
			case 3: s += "ocW(" + e + ");\n"; break;
			case 4: s += "log(" + e + ", ocZ(), ocG(1), " + leaf(TI) + ");\n"; break;
			case 5: s += "log(ocR(" + e + ", ocZ()), ocG(5));\n"; break;
			default: charge(50); s += "log(ocH(" + e + "));\n"; break;
		}
		return s + ind() + "oc = 0;\n";
	}

	std::string loop()
	{
		int n = 1 + ch(6);
		if (!afford(n * 6) || !roomForVar()) return logStmt();
		int body = 1 + ch(3);
		std::string s;
		int kind = ch(4);
		bool oldg = canGoto; canGoto = false;
		bool oldFe = inForeach; inForeach = false;
		int oldSw = switchDepth; switchDepth = 0;
		if (kind == 0 || kind == 1)
		{
			// the counter is advanced before the body so that 'continue' terminates
			s = declare(TI, "0", true, "i");
			std::string c = inFn ? locals.back().name : globals.back().name;
			mult *= n; ++loopDepth;
			std::string b = block(body);
			--loopDepth; mult /= n;
			std::string adv = ind() + "\t" + c + (ch(2) ? "++" : " += 1") + ";\n";
			static const char* cmp[] = { " < %d )", " <= %d )", " != %d )" };
			int ck = ch(3);
			if (kind == 0) s += ind() + "while ( " + c + sfmt(cmp[ck], n) + "\n" + ind() + "{\n" + adv + b + ind() + "}\n";
			else s += ind() + "do\n" + ind() + "{\n" + adv + b + ind() + "} while ( " + c + sfmt(" < %d );\n", n);
		}
		else
		{
			std::string c = fresh("i");
			Var v; v.name = c; v.t = TI; v.ro = true;
			if (inFn) { locals.push_back(v); ++fnVarCount; } else { globals.push_back(v); allGlobals.push_back(c); }
			mult *= n; ++loopDepth;
			std::string b = block(body);
			--loopDepth; mult /= n;
			if (kind == 2) s = ind() + "for ( var " + c + sfmt(" = 0; ") + c + sfmt(" < %d; ", n) + (ch(2) ? "++" + c : c + "++") + " )\n" + ind() + "{\n" + b + ind() + "}\n";
			else s = ind() + "for ( var " + c + sfmt(" = %d; ", n) + c + " > 0; --" + c + " )\n" + ind() + "{\n" + b + ind() + "}\n";
			// the loop variable stays in scope for nothing else
			if (inFn) { for (size_t i = 0; i < locals.size(); ++i) if (locals[i].name == c) { locals.erase(locals.begin() + i); break; } }
			else for (size_t i = 0; i < globals.size(); ++i) if (globals[i].name == c) { globals.erase(globals.begin() + i); break; }
		}
		canGoto = oldg; switchDepth = oldSw; inForeach = oldFe;
		return s;
	}

	std::string foreach_()
	{
		static const T c[] = { TAI, TAS, THI, THS, TS };
		T t = c[ch(5)];
		if (!enabled(t) || !roomForVar()) return logStmt();
		if (!afford(50)) return logStmt();
		bool oldg = canGoto; canGoto = false;
		int oldSw = switchDepth; switchDepth = 0;
		std::string s;
		std::string target;
		bool own = ch(2);
		unsigned oldFrozen = frozen; int oldNC = noCalls;
		if (own || vars(t, false).empty())
		{
			s = declare(t, init(t), true, "c");
			target = inFn ? locals.back().name : globals.back().name;
			// private to this loop: not visible to the body
			if (inFn) locals.pop_back(); else globals.pop_back();
		}
		else
		{
			std::vector<Var*> v = vars(t, false);
			target = pick(v)->name;
			frozen |= 1u << t;
			if (t == TS) frozen |= 0;
			++noCalls;
		}
		if (!roomForVar()) { frozen = oldFrozen; noCalls = oldNC; canGoto = oldg; switchDepth = oldSw; return s + logStmt(); }
		bool kv = ch(2) != 0;
		T vt = (t == TAI || t == THI || t == TS) ? TI : TS;
		std::string vn = fresh("e"), kn;
		size_t keepL = locals.size(), keepG = globals.size();
		Var v; v.name = vn; v.t = vt; v.ro = true;
		// values of string containers are only logged (a missing string reads as 0)
		if (vt == TI) { if (inFn) locals.push_back(v); else globals.push_back(v); }
		// a loop variable stays an alias of the last element after the loop: it is never observed afterwards
		if (inFn) ++fnVarCount; else ++hidden;
		if (kv)
		{
			kn = fresh("k");
			if (inFn) ++fnVarCount; else ++hidden;
		}
		mult *= 6; ++loopDepth;
		bool oldFe = inForeach; inForeach = true;
		std::string b = block(1 + ch(2));
		inForeach = oldFe;
		if (ch(2)) { charge(1); b += ind() + "\tlog(" + vn + ");\n"; }
		if (kv && ch(2)) { charge(1); b += ind() + "\tlog(" + kn + ");\n"; }
		--loopDepth; mult /= 6;
		locals.resize(keepL); globals.resize(keepG);
		frozen = oldFrozen; noCalls = oldNC; canGoto = oldg; switchDepth = oldSw;
		s += ind() + "for ( var " + (kv ? kn + ", var " + vn : vn) + " : " + target + " )\n" + ind() + "{\n" + b + ind() + "}\n";
		return s;
	}

	std::string switch_()
	{
		bool oldg = canGoto; canGoto = false;
		bool dense = ch(2) == 0;
		int n = 1 + ch(4);
		std::string s = ind() + "switch ( " + (dense ? "(" + E(TI) + ") & 3" : E(TI)) + " )\n" + ind() + "{\n";
		++switchDepth;
		static const int sparse[] = { 0, 1, 2, 3, 7, 100, 255, 1000, 65536, 32767 };
		std::set<int> used;
		for (int i = 0; i < n; ++i)
		{
			int v = dense ? i : sparse[ch(10)];
			if (used.count(v)) { if (i == n - 1) s += ind() + "break;\n"; continue; }
			used.insert(v);
			++blockDepth;
			s += ind() + sfmt("case %d:\n", v) + ind() + "{\n" + block(1 + ch(2)) + ind() + "}\n";
			if (ch(4) || i == n - 1) s += ind() + "break;\n";
			--blockDepth;
		}
		if (ch(2)) { ++blockDepth; s += ind() + "default:\n" + ind() + "{\n" + block(1) + ind() + "}\n" + ind() + "break;\n"; --blockDepth; }
		--switchDepth;
		s += ind() + "}\n";
		canGoto = oldg;
		return s;
	}

	std::string function(int idx)
	{
		Fn f;
		f.name = sfmt("f%d", idx);
		f.recursive = cfg.recursion && chance(1, 4);
		f.ret = f.recursive ? (cfg.strings && ch(2) ? TS : TI) : randType();
		int np = ch(4);
		if (f.recursive && np == 0) np = 1;
		for (int i = 0; i < np; ++i) f.params.push_back(f.recursive && i == 0 ? TI : randType(ch(2)));
		inFn = true; locals.clear(); fnVarCount = np; cost = 0; mult = 1; cap = cfg.maxCost / 6; retType = f.ret; loopDepth = switchDepth = 0; noCalls = 0; frozen = 0; canGoto = true; blockDepth = 1;
		std::string s = "function " + f.name + "(";
		for (int i = 0; i < np; ++i)
		{
			Var v; v.name = sfmt("p%d", i); v.t = f.params[i]; v.ro = f.recursive && i == 0;
			locals.push_back(v);
			if (i) s += ", ";
			s += v.name;
		}
		s += ")\n{\n";
		if (f.recursive)
		{
			cap = cfg.maxCost / 30;
			s += "\tif ( p0 <= 0 ) { return " + init(f.ret) + "; }\n";
			int n = 1 + ch(2);
			for (int i = 0; i < n; ++i) s += stmt();
			s += "\tvar rr = " + f.name + "(p0 - 1";
			for (int i = 1; i < np; ++i) { std::string a = leaf(f.params[i]); s += ", " + (a.empty() ? init(f.params[i]) : a); }
			s += ");\n";
			if (f.ret == TI) s += "\treturn rr + " + E(TI) + ";\n"; else s += "\treturn rr + " + strLit() + ";\n";
			f.cost = (int)(cost + 4) * 5;
		}
		else
		{
			int n = 1 + ch(5);
			for (int i = 0; i < n; ++i) s += stmt();
			s += "\treturn " + (f.ret == TS ? ES() : E(f.ret)) + ";\n";
			f.cost = (int)cost + 2;
		}
		s += "}\n";
		inFn = false; locals.clear(); blockDepth = 0;
		fns.push_back(f);
		return s;
	}
};

GenCfg swarmCfg()
{
	GenCfg c;
	c.floats = ch(4) != 0;
	c.strings = ch(8) != 7;
	c.structs = ch(3) != 0;
	c.hashes = ch(4) != 3;
	c.containers = ch(3) != 0;
	c.strlib = ch(3) != 0;
	c.gotos = ch(2) != 0;
	c.switches = ch(3) != 0;
	c.recursion = ch(3) != 0;
	c.foreachs = ch(4) != 0;
	c.hostcalls = ch(5) != 0;
	c.bigHash = ch(3) == 0;
	c.orphans = ch(3) == 0 && c.hashes && c.strings;
	c.topStmts = 2 + ch(9);
	c.nFuncs = ch(5);
	c.nCalls = ch(4);
	c.maxCost = 300 + ch(2000);
	return c;
}

Plan genPlan(GenCfg const& cfg)
{
	Gen g; g.cfg = cfg;
	Plan p;
	std::string s;
	if (cfg.structs)
	{
		s += "struct S0\n{\n\tvar a;\n\tvar b;\n\tvar c;\n};\n";
		s += "struct S1( x, y )\n{\n\tvar a = x;\n\tvar b = \"\" + y;\n\tvar c = { 1, x };\n};\n";
		s += "function mkS0(a, b, c)\n{\n\tvar r = new S0();\n\tr.a = a;\n\tr.b = b;\n\tr.c = c;\n\treturn r;\n}\n";
		s += "function mkS1(a, b)\n{\n\tvar r = new S1(a, b);\n\treturn r;\n}\n";
	}
	if (cfg.hashes) s += "function mkHA(a, b)\n{\n\tvar r = { 0:0, 1:0 };\n\tr[0] = a;\n\tr[1] = b;\n\treturn r;\n}\n";
	if (!cfg.hashes || !cfg.strings) g.cfg.orphans = false;
	if (g.cfg.orphans)
	{
		++g.hidden;
		s += "var oc = 0;\nfunction ocG(n)\n{\n\tvar t = \"g\" + n;\n\tvar u = { t, n };\n\treturn u._count;\n}\n"
			"function ocZ()\n{\n\toc = 0;\n\treturn ocG(9);\n}\n"
			"function ocY()\n{\n\toc = { 0:0, 1:0 };\n\toc[0] = { 5, 6 };\n\toc[1] = { \"y\", 3 };\n\treturn ocG(8);\n}\n"
			"function ocX()\n{\n\toc = { 5, \"x\" + 1, 7 };\n\treturn ocG(8);\n}\n"
			"function ocA(a, b)\n{\n\treturn { a, b, \"c\" + a };\n}\n"
			"function ocD(p)\n{\n\toc = 0;\n\tocG(1);\n\tlog(p);\n\tocG(2);\n\treturn p;\n}\n"
			"function ocR(p, q)\n{\n\toc = { 8, \"r\" };\n\tocG(3);\n\tlog(q, p);\n\tocZ();\n\treturn q;\n}\n"
			"function ocW(p)\n{\n\toc = 0;\n\tocG(4);\n\tp = \"w\" + 7;\n\tocG(5);\n\tlog(p);\n}\n"
			"function ocH(p)\n{\n\tfor ( var i = 20; i < 50; ++i ) { oc[i] = i; }\n\tlog(p);\n\tocG(6);\n\toc = 0;\n\tocG(7);\n\tlog(p);\n\treturn p;\n}\n";
	}
	int ng = 3 + ch(6);
	for (int i = 0; i < ng; ++i)
	{
		T t = i == 0 ? TI : g.randType();
		Var v; v.name = sfmt("g%d", i); v.t = t; v.ro = false;
		s += "var " + v.name + " = " + g.init(t) + ";\n";
		g.globals.push_back(v); g.allGlobals.push_back(v.name);
	}
	for (int i = 0; i < cfg.nFuncs; ++i) s += g.function(i);
	g.inFn = false; g.locals.clear(); g.cost = 0; g.mult = 1; g.cap = cfg.maxCost; g.blockDepth = 0; g.loopDepth = g.switchDepth = 0; g.noCalls = 0; g.frozen = 0; g.canGoto = true;
	for (int i = 0; i < cfg.topStmts; ++i) s += g.stmt();
	if (ch(3) == 0) s += "return " + g.E(g.randType()) + ";\n";
	if (ch(2)) { s = "function pure__( x )\n{\n\tvar y = x;\n\ty = y + 3;\n\treturn y + x + 4;\n}\n" + s; p.pure = "pure__"; }
	p.src = s;
	p.globals = g.allGlobals;
	p.hasFault = g.fault;
	for (size_t i = 0; i < g.fns.size(); ++i) p.functions.push_back(g.fns[i].name);
	if (!g.fns.empty())
	{
		int n = ch(cfg.nCalls + 1);
		for (int i = 0; i < n; ++i)
		{
			Fn const& f = g.fns[ch((uint32_t)g.fns.size())];
			Call k; k.fn = f.name;
			for (size_t a = 0; a < f.params.size(); ++a)
			{
				Arg x; x.kind = 0; x.i = 0; x.f = 0;
				T t = f.params[a];
				if (f.recursive && a == 0) { x.i = ch(4); }
				else if (t == TI) x.i = ch(200);
				else if (t == TF) { x.kind = 1; x.f = ch(100) * 0.5f; }
				else if (t == TS) { x.kind = 2; x.s = sfmt("arg%d", ch(50)); }
				else
				{
					// containers cannot be conjured by the host: skip such functions
					x.kind = -1;
				}
				k.args.push_back(x);
			}
			bool ok = true;
			for (size_t a = 0; a < k.args.size(); ++a) if (k.args[a].kind < 0) ok = false;
			if (ok) p.calls.push_back(k);
		}
	}
	p.replySeed = ch(1000000);
	g_schedHash = fnv64(p.src.data(), p.src.size(), g_schedHash);
	return p;
}
