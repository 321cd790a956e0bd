// Properties of the outside world: files, the network, clocks.
#include "world.h"
#include <map>

// ---------------------------------------------------------------- C15
// Every file operation is bracketed by two host calls: mk( i ) records what storage looks like, ck( i, result )
// compares the result with what storage did in between. No assumption is made about which calls the library uses.
struct FileOp { int kind; int file, file2, slot; int n, whence; int blob; int flags; std::string text; };
enum { OP_READFILE, OP_WRITEFILE, OP_DELETE, OP_OPEN, OP_CLOSE, OP_READ, OP_WRITE, OP_SEEK, OP_FSYNC, OP_GETLINE, OP_ODD, OP_N };
static const char* c_opName[] = { "readFile", "writeFile", "deleteFile", "open", "close", "read", "write", "seek", "fsync", "getline", "odd" };
struct FileActor
{
	std::vector<FileOp> ops; int fds[3]; int marked; Script s; Plan p; Bytes im; std::string name; int done;
	std::map<std::string, std::string> before; size_t rec; uint64_t faults; int openFds; FdInfo fd; std::string fdData; size_t stdinPos;
	FileActor() : marked(-1), done(0), rec(0), faults(0), openFds(0), stdinPos(0) { fds[0] = fds[1] = fds[2] = -1; }
};
static std::vector<FileActor*> g_fa;
static std::vector<std::string> g_blobs;
static WRValue g_rawBox; static std::string g_rawBytes;
static const char* c_files[] = { "a.txt", "b.bin", "dir/c", "d" };
static FileActor* faOf() { for (size_t i = 0; i < g_fa.size(); ++i) if (&g_fa[i]->s == g_cur) return g_fa[i]; return 0; }
static std::map<std::string, std::string> snap() { std::map<std::string, std::string> m; for (std::map<std::string, Inode*>::iterator i = g_sim.files.begin(); i != g_sim.files.end(); ++i) m[i->first] = i->second->data; return m; }
static void h_mk(WRContext*, const WRValue* argv, const int argn, WRValue&, void*)
{
	FileActor* a = faOf(); if (!a || argn < 1) return;
	a->marked = argv[0].asInt(); a->before = snap(); a->rec = g_sim.rec.size(); a->faults = g_sim.faults; a->openFds = g_sim.openFds; a->stdinPos = g_sim.stdinPos;
	FileOp& o = a->ops[a->marked];
	int fd = o.slot >= 0 ? a->fds[o.slot] : -1; a->fd = sim_fd(fd); a->fdData = a->fd.file ? a->fd.ino->data : "";
}
static std::string bytesOf(WRValue const& v, bool& isStr)
{
	unsigned int len = 0; WRValue const& d = v.deref(); void* p = d.array(&len, SV_CHAR); isStr = p != 0 || (IS_ARRAY(d.xtype) && d.arraySize() >= 0);
	return p ? std::string((const char*)p, len) : std::string();
}
static void h_ck(WRContext* c, const WRValue* argv, const int argn, WRValue&, void*)
{
	FileActor* a = faOf(); if (!a || argn < 2) return;
	int i = argv[0].asInt();
	if (i != a->marked) violate("sim", "operation %d was not marked", i);
	FileOp& o = a->ops[i]; ++a->done; ++g_steps;
	bool hard = false, shrt = false; uint64_t inj = 0; for (size_t k = a->rec; k < g_sim.rec.size(); ++k) if (g_sim.rec[k].injected) { ++inj; if (g_sim.rec[k].ret < 0) hard = true; else shrt = true; }
	if (g_sim.faults - a->faults > inj) hard = true; // a file changed by another process
	bool isStr; std::string got = bytesOf(argv[1], isStr); int r = isStr ? 0 : argv[1].asInt();
	std::string file = o.file >= 0 ? c_files[o.file] : ""; std::map<std::string, std::string> now = snap();
	const char* op = c_opName[o.kind]; std::string on = o.slot >= 0 ? sfmt("descriptor %d", o.slot) : file;
	ev("%s %s(%s) -> %s%s%s", a->name.c_str(), op, on.c_str(), isStr ? sfmt("%d bytes", (int)got.size()).c_str() : sfmt("%d", r).c_str(), hard ? " after a failure" : "", shrt ? " after a short transfer" : "");
	std::string what = sfmt("%s %s on %s", a->name.c_str(), op, on.c_str());
	std::map<std::string, std::string> other = a->before, otherNow = now;
	bool selfContained = o.kind <= OP_DELETE || o.kind == OP_ODD || o.kind == OP_GETLINE;
	if (selfContained && g_sim.openFds != a->openFds) violate("descriptor-leak", "%s leaves %d descriptors open: %s", what.c_str(), g_sim.openFds - a->openFds, sim_describeDescriptors().c_str());
	switch (o.kind)
	{
		case OP_READFILE:
		{
			bool had = a->before.count(file), has = now.count(file);
			if (!hard)
			{
				if (!had) { if (!got.empty() || r > 0) violate("invented-data", "%s returns something although there is no such file", what.c_str()); }
				else if (got != a->before[file]) violate("wrong-data", "%s returns %d bytes, the file has %d%s", what.c_str(), (int)got.size(), (int)a->before[file].size(), got.size() == a->before[file].size() ? " (different bytes)" : "");
			}
			else if (!got.empty() && !(had && got == a->before[file]) && !(has && got == now[file])) violate("wrong-data", "%s returns %d bytes after a failed read, none of the contents the file had (%d bytes before)", what.c_str(), (int)got.size(), had ? (int)a->before[file].size() : 0);
			other.erase(file); otherNow.erase(file);
			break;
		}
		case OP_WRITEFILE:
		{
			std::string const& d = g_blobs[o.blob]; bool same = now.count(file) && now[file] == d;
			if (r && !same) violate("false-success", "%s reports success (%d), but the file holds %d of %d bytes", what.c_str(), r, now.count(file) ? (int)now[file].size() : -1, (int)d.size());
			if (!hard && !same) violate("lost-data", "%s without any failure, but the file holds %d of %d bytes", what.c_str(), now.count(file) ? (int)now[file].size() : -1, (int)d.size());
			if (!hard && !r && d.size()) violate("false-failure", "%s reports failure although nothing failed", what.c_str());
			other.erase(file); otherNow.erase(file);
			break;
		}
		case OP_DELETE:
			if (!hard && now.count(file)) violate("not-deleted", "%s, but the file is still there", what.c_str());
			other.erase(file); otherNow.erase(file);
			break;
		case OP_OPEN:
		{
			FdInfo f = sim_fd(r);
			a->fds[o.slot] = r;
			bool had = a->before.count(file);
			bool should = had ? !((o.flags & O_CREAT) && (o.flags & O_EXCL)) : (o.flags & O_CREAT) != 0;
			if (r >= 0 && (!f.file || f.ino != simfs_find(file) || f.off != 0)) violate("wrong-descriptor", "%s of %s gives %d, which is not that file", what.c_str(), file.c_str(), r);
			if (r >= 0 && !should) violate("false-success", "%s of %s succeeds, it should not", what.c_str(), file.c_str());
			if (r >= 0 && (f.readable != ((o.flags & O_ACCMODE) != O_WRONLY) || f.writable != ((o.flags & O_ACCMODE) != O_RDONLY) || f.append != ((o.flags & O_APPEND) != 0))) violate("wrong-descriptor", "%s of %s has another mode than asked for", what.c_str(), file.c_str());
			if (r >= 0 && now[file] != ((o.flags & O_TRUNC) ? "" : had ? a->before[file] : "")) violate("lost-data", "%s of %s changes its contents", what.c_str(), file.c_str());
			if (r < 0 && should && !hard) violate("false-failure", "%s of %s fails although nothing failed", what.c_str(), file.c_str());
			if (r < 0 && g_sim.openFds != a->openFds) violate("descriptor-leak", "%s failed and leaves a descriptor", what.c_str());
			if (r >= 0 && r < 3) violate("wrong-descriptor", "%s gives %d", what.c_str(), r);
			other.erase(file); otherNow.erase(file);
			break;
		}
		case OP_CLOSE:
		{
			bool ok = a->fd.open && !hard;
			if ((r == 0) != ok) violate(ok ? "false-failure" : "false-success", "%s gives %d", what.c_str(), r);
			if (a->fd.open && g_sim.openFds != a->openFds - 1) violate("descriptor-leak", "%s does not close", what.c_str());
			if (a->fd.file) for (std::map<std::string, Inode*>::iterator k = g_sim.files.begin(); k != g_sim.files.end(); ++k) if (k->second == a->fd.ino) { other.erase(k->first); otherNow.erase(k->first); }
			break;
		}
		case OP_READ:
		{
			std::string exp; if (a->fd.file && a->fd.readable && o.n > 0 && a->fd.off < (int64_t)a->fdData.size()) exp = a->fdData.substr((size_t)a->fd.off, (size_t)o.n);
			if (got.size() > exp.size() || exp.compare(0, got.size(), got)) violate("wrong-data", "%s returns %d bytes that are not in the file at offset %d", what.c_str(), (int)got.size(), (int)a->fd.off);
			if (!hard && !shrt && got != exp) violate("lost-data", "%s returns %d of %d bytes although nothing failed", what.c_str(), (int)got.size(), (int)exp.size());
			if (!hard && shrt && got.empty() && exp.size()) violate("lost-data", "%s returns nothing after a short read", what.c_str());
			if (r > 0) violate("invented-data", "%s returns the number %d", what.c_str(), r);
			FdInfo f = sim_fd(a->fds[o.slot]); if (a->fd.file && f.off != a->fd.off + (int64_t)got.size()) violate("lost-data", "%s returns %d bytes but moves the offset from %d to %d", what.c_str(), (int)got.size(), (int)a->fd.off, (int)f.off);
			break;
		}
		case OP_WRITE:
		{
			std::string d = o.blob == -2 ? g_rawBytes : g_blobs[o.blob]; if (o.n != -1 && (size_t)(unsigned)o.n < d.size()) d.resize((size_t)o.n);
			bool can = a->fd.file && a->fd.writable;
			std::string after = a->fd.file ? a->fd.ino->data : ""; std::string exp = a->fdData;
			size_t acc = r > 0 ? (size_t)r : 0;
			if (acc > d.size()) violate("false-success", "%s reports %d bytes of %d", what.c_str(), r, (int)d.size());
			if (can && acc) { size_t at = a->fd.append ? exp.size() : (size_t)a->fd.off; if (exp.size() < at + acc) exp.resize(at + acc, '\0'); exp.replace(at, acc, d, 0, acc); }
			if (!can && r >= 0 && d.size()) violate("false-success", "%s reports %d, it cannot be written", what.c_str(), r);
			if (after != exp) violate("false-count", "%s reports %d of %d bytes, and the file is not what it should be with those (%d bytes, expected %d)", what.c_str(), r, (int)d.size(), (int)after.size(), (int)exp.size());
			if (can && !hard && !shrt && acc != d.size()) violate("false-failure", "%s accepts %d of %d bytes although nothing failed", what.c_str(), r, (int)d.size());
			if (can && hard && !acc && r >= 0 && d.size()) violate("false-success", "%s failed and reports %d", what.c_str(), r);
			if (a->fd.file) for (std::map<std::string, Inode*>::iterator k = g_sim.files.begin(); k != g_sim.files.end(); ++k) if (k->second == a->fd.ino) { other.erase(k->first); otherNow.erase(k->first); }
			break;
		}
		case OP_SEEK:
		{
			int64_t base = o.whence == SEEK_SET ? 0 : o.whence == SEEK_CUR ? a->fd.off : (int64_t)a->fdData.size(); int64_t to = base + o.n;
			int want = a->fd.file && to >= 0 ? (int)to : -1;
			FdInfo f = sim_fd(a->fds[o.slot]);
			if (!hard && r != want) violate("wrong-offset", "%s gives %d instead of %d", what.c_str(), r, want);
			if (!hard && a->fd.file && f.off != (want < 0 ? a->fd.off : to)) violate("wrong-offset", "%s leaves the offset at %d", what.c_str(), (int)f.off);
			break;
		}
		case OP_FSYNC:
		{
			bool ok = a->fd.file && !hard;
			if ((r == 0) != ok) violate(ok ? "false-failure" : "false-success", "%s gives %d", what.c_str(), r);
			break;
		}
		case OP_GETLINE:
		{
			std::string const& in = g_sim.stdinData; size_t p = a->stdinPos;
			if (in.compare(p, got.size(), got) || p + got.size() > in.size()) violate("wrong-data", "%s returns %d bytes that are not the next input", what.c_str(), (int)got.size());
			size_t e = p + got.size(), used = g_sim.stdinPos;
			for (size_t k = 0; k < got.size(); ++k) if (got[k] == '\n' || got[k] == '\r') violate("wrong-data", "%s returns a line break", what.c_str());
			if (used != e && !(used == e + 1 && (in[e] == '\n' || in[e] == '\r'))) violate("lost-data", "%s returns %d bytes but takes %d from the input", what.c_str(), (int)got.size(), (int)(used - p));
			if (used == e && e < in.size() && got.size() < 200) violate("lost-data", "%s stops in the middle of a line after %d bytes", what.c_str(), (int)got.size());
			break;
		}
		default: break;
	}
	if (!hard && other != otherNow) violate("other-file", "%s changes another file", what.c_str());
	a->marked = -1;
	COUNT("sched.file_operations"); if (hard) COUNT("sched.operations_hit_by_failure"); else if (shrt) COUNT("sched.operations_hit_by_short_transfer");
	if (g_callbackHook) g_callbackHook(c, "ck");
}
static void h_blob(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	unsigned k = argn ? (unsigned)argv[0].asInt() : 0;
	if (k < g_blobs.size()) wr_makeString(c, &ret, g_blobs[k].data(), (int)g_blobs[k].size());
}
static void h_rawbox(WRContext*, const WRValue*, const int, WRValue& ret, void*) { ret = g_rawBox; }

static std::string blobText(int n)
{
	static const char alpha[] = "abcdefghijklmnopqrstuvwxyz0123456789\n \0\xff"; std::string s; uint32_t x = ch(65536) * 2654435761u + 1;
	for (int i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; s += alpha[(x >> 20) % (sizeof(alpha) - 1)]; }
	return s;
}
static std::string genFileOps(FileActor& a, int n)
{
	std::string src = "var f0 = -1; var f1 = -1; var f2 = -1; var names[] = { \"a.txt\", \"b.bin\", \"dir/c\", \"d\" }; var hn = {}; hn[\"k\"] = \"b.bin\"; var box = rawbox();\n";
	src += "struct W { var nm = \"dir/c\"; }; var ws = new W();\n";
	for (int i = 0; i < n; ++i)
	{
		FileOp o; o.kind = ch(OP_N); o.file = o.file2 = -1; o.slot = -1; o.n = 0; o.whence = 0; o.blob = 0; o.flags = 0;
		std::string name, call;
		bool early = i < 3 && ch(4); if (early) o.kind = OP_OPEN;
		if (o.kind <= OP_OPEN)
		{
			o.file = ch(4); name = sfmt("\"%s\"", c_files[o.file]);
			switch (ch(5)) { case 1: name = sfmt("names[%d]", o.file); break; case 2: if (o.file == 1) name = "hn[\"k\"]"; break; case 3: if (o.file == 2) name = "ws.nm"; break; case 4: name = sfmt("(\"\" + \"%s\")", c_files[o.file]); break; default: break; }
		}
		if (o.kind >= OP_OPEN && o.kind <= OP_FSYNC) o.slot = early ? i : ch(3);
		switch (o.kind)
		{
			case OP_READFILE: call = "io::readFile( " + name + " )"; break;
			case OP_WRITEFILE: o.blob = ch((uint32_t)g_blobs.size()); call = "io::writeFile( " + name + sfmt(", blob( %d ) )", o.blob); break;
			case OP_DELETE: call = "io::deleteFile( " + name + " )"; break;
			case OP_OPEN:
			{
				static const struct { int f; const char* t; } m[] = { { O_RDONLY, "io::O_RDONLY" }, { O_RDWR, "io::O_RDWR" }, { O_RDWR | O_CREAT, "io::O_RDWR | io::O_CREAT" }, { O_RDWR | O_CREAT | O_TRUNC, "io::O_RDWR | io::O_CREAT | io::O_TRUNC" }, { O_RDWR | O_CREAT | O_EXCL, "io::O_RDWR | io::O_CREAT | io::O_EXCL" }, { O_RDWR | O_CREAT | O_APPEND, "io::O_RDWR | io::O_CREAT | io::O_APPEND" } };
				int k = ch(7); if (k == 6) { o.flags = O_RDWR | O_CREAT; call = "io::open( " + name + " )"; } else { o.flags = m[k].f; call = "io::open( " + name + ", " + m[k].t + " )"; }
				call = sfmt("f%d = ", o.slot) + call; break;
			}
			case OP_CLOSE: call = sfmt("io::close( f%d )", o.slot); break;
			case OP_READ: { static const int sz[] = { 1, 7, 64, 300, 4096, 9000, 0, -3 }; o.n = sz[ch(8)]; call = sfmt("io::read( f%d, %d )", o.slot, o.n); break; }
			case OP_WRITE:
			{
				o.n = -1; std::string data; if (!ch(5)) { o.blob = -2; data = "box.raw"; } else { o.blob = ch((uint32_t)g_blobs.size()); data = sfmt("blob( %d )", o.blob); }
				if (!ch(3)) { o.n = ch(12); call = sfmt("io::write( f%d, %s, %d )", o.slot, data.c_str(), o.n); } else call = sfmt("io::write( f%d, %s )", o.slot, data.c_str());
				break;
			}
			case OP_SEEK: { static const int of[] = { 0, 1, 10, -1, -10, 5000, 300 }; o.n = of[ch(7)]; o.whence = ch(3); call = sfmt("io::seek( f%d, %d, io::%s )", o.slot, o.n, o.whence == 0 ? "SEEK_SET" : o.whence == 1 ? "SEEK_CUR" : "SEEK_END"); break; }
			case OP_FSYNC: call = sfmt("io::fsync( f%d )", o.slot); break;
			case OP_GETLINE: call = "io::getline()"; break;
			default:
			{
				static const char* odd[] = { "io::readFile()", "io::readFile( 12 )", "io::readFile( names )", "io::writeFile( \"d\" )", "io::writeFile( 5, 5 )", "io::deleteFile( hn )", "io::deleteFile()", "io::open()", "io::close()", "io::close( -1 )", "io::read( -1, 10 )", "io::read( 5 )", "io::write( -1, \"x\" )", "io::write( f0, 5 )", "io::write( f0, names )", "io::seek( -1, 0 )", "io::fsync( -1 )", "io::fsync()", "io::readFile( \"\" )", "io::writeFile( \"\", \"x\" )", "io::open( \"\" )", "io::read( \"abc\", 5 )", "io::deleteFile( 1.5 )", "io::readFile( 0.25 )", "io::readFile( ws )" };
				call = odd[ch(25)]; break;
			}
		}
		o.text = call;
		a.ops.push_back(o);
		if (o.kind == OP_OPEN) src += sfmt("mk( %d ); %s; ck( %d, f%d );\n", i, call.c_str(), i, o.slot);
		else if (ch(2)) src += sfmt("mk( %d ); var r%d = %s; ck( %d, r%d );\n", i, i, call.c_str(), i, i);
		else src += sfmt("mk( %d ); ck( %d, %s );\n", i, i, call.c_str());
		if (!ch(3)) src += sfmt("for ( var i%d = 0; i%d < %d; ++i%d ) { hv( i%d + \"x\" ); }\n", i, i, 1 + (int)ch(4), i, i);
	}
	return src;
}
void run_C15()
{
	uint64_t zero = g_al.liveBlocks;
	simio_activate(); g_blobs.clear(); g_fa.clear();
	int nb = 3 + ch(3); for (int i = 0; i < nb; ++i) { static const int sz[] = { 0, 1, 10, 90, 700, 4096, 5000, 9000 }; g_blobs.push_back(blobText(sz[ch(8)])); }
	for (int i = 0; i < 4; ++i) if (ch(2)) { static const int sz[] = { 0, 1, 20, 300, 4096, 10000 }; simfs_create(c_files[i], blobText(sz[ch(6)])); }
	static const int stdinByte[] = { 'x', 0xff, 0x80, 1, 0xc3, 127, ' ' }; bool rawIn = ch(3) == 0;
	int lines = ch(6); for (int i = 0; i < lines; ++i) { static const int sz[] = { 0, 3, 40, 255, 256, 257, 700 }; int n = sz[ch(7)]; for (int k = 0; k < n; ++k) g_sim.stdinData += rawIn ? (char)stdinByte[ch(7)] : (char)('a' + (k * 7 + i) % 26); if (i + 1 < lines || ch(2)) g_sim.stdinData += ch(8) ? '\n' : '\r'; }
	g_sim.stdinErr = ch(2);
	IoCfg cfg; int mode = ch(4);
	if (mode) { static const uint32_t pc[] = { 5, 15, 40 }; cfg.faultPct = pc[ch(3)]; cfg.shortIo = ch(2); cfg.eio = ch(2); cfg.eintr = ch(2); cfg.openFail = ch(2); cfg.closeFail = ch(2); cfg.statFail = !ch(3); cfg.toctou = !ch(3); cfg.enospc = ch(2); if (cfg.enospc) cfg.diskLeft = ch(9000); }
	int na = 1 + ch(3); std::vector<FileActor*> as;
	for (int i = 0; i < na; ++i)
	{
		FileActor* a = new FileActor; a->name = sfmt("script%d", i); a->p.src = genFileOps(*a, 3 + ch(22)); noteBlock(a->name.c_str(), a->p.src);
		as.push_back(a); if (!compileTo(a->p.src, a->im)) violate("sim", "the generated script does not compile");
	}
	g_fa = as;
	WRState* w = newState(400);
	wr_registerFunction(w, "mk", h_mk, 0); wr_registerFunction(w, "ck", h_ck, 0); wr_registerFunction(w, "blob", h_blob, 0); wr_registerFunction(w, "rawbox", h_rawbox, 0);
	g_rawBytes = blobText(ch(2) ? 40 : 600); char* raw = (char*)::malloc(g_rawBytes.size()); memcpy(raw, g_rawBytes.data(), g_rawBytes.size());
	wr_makeContainer(&g_rawBox); wr_addArrayToContainer(&g_rawBox, "raw", raw, (int)g_rawBytes.size());
	for (int i = 0; i < na; ++i) { as[i]->s.logGlobals = false; if (!scriptLoad(as[i]->s, w, &as[i]->p, &as[i]->im, as[i]->name.c_str())) violate("load", "a valid image is refused"); }
	g_phase = "file operations"; bool jit = ch(2); g_cbForcePct = ch(2) ? 30 : 0; g_callbackHook = cbForce;
	g_sim.io = cfg; worldArm(w); if (jit) { g_world.jitterGc = true; g_world.gcPct = 30; }
	std::vector<int> live; for (int i = 0; i < na; ++i) live.push_back(i);
	for (int guard = 0; !live.empty(); ++guard)
	{
		int k = ch((uint32_t)live.size()); Script& s = as[live[k]]->s;
		setSlice(w, guard > 3000 ? 0 : budget()); if (guard > 3000) g_cbForcePct = 0;
		scriptStep(s, 0);
		if (s.done())
		{
			if (s.lastErr) violate("script-failed", "%s ends with error %d because of an I/O result", s.name, s.lastErr);
			if (as[live[k]]->done != (int)as[live[k]]->ops.size()) violate("script-failed", "%s made %d of its %d operations", s.name, as[live[k]]->done, (int)as[live[k]]->ops.size());
			live.erase(live.begin() + k);
		}
	}
	worldOff(); setSlice(w, 0); g_callbackHook = 0; g_cbForcePct = 0;
	wr_destroyState(w); wr_destroyContainer(&g_rawBox);
	if (memcmp(raw, g_rawBytes.data(), g_rawBytes.size())) violate("other-memory", "writing the host's array out changed it");
	::free(raw); g_fa.clear(); for (int i = 0; i < na; ++i) delete as[i];
	simio_deactivate();
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
}

// ---------------------------------------------------------------- C16
// Simulated processes, each with a state and a script of its own, talk over the simulated network. Every call is
// bracketed as above; the records the network kept for this process decide what the call may return.
struct NetActor
{
	std::string name, src; Bytes im; WRState* w; WRContext* c; int co;
	size_t rec; int openFds; int fd; std::string sendData; int kind; bool expectFail, wasOpen; int want; int maxRead;
	std::string taken; bool complete, gaveUp, ended; int err; std::function<void()> native; std::string* sentTo;
	NetActor() : w(0), c(0), co(-1), rec(0), openFds(0), fd(-1), kind(0), expectFail(false), wasOpen(false), want(0), maxRead(0), complete(false), gaveUp(false), ended(false), err(0), sentTo(0) {}
};
enum { N_BIND, N_ACCEPT, N_CONNECT, N_CLOSE, N_SEND, N_RECV, N_PEEK, N_ODD };
static const char* c_netName[] = { "bind", "accept", "connect", "close", "send", "receive", "peek", "odd" };
static std::vector<NetActor*> g_na;
static int actorFds(int co) // descriptors this process holds, by what its own calls returned
{
	int n = 0;
	for (size_t i = 0; i < g_sim.rec.size(); ++i)
	{
		SysRec& r = g_sim.rec[i]; if (r.actor != co) continue;
		if ((r.op == "socket" || r.op == "accept") && r.ret >= 0) ++n;
		if (r.op == "close" && r.ret == 0) --n;
	}
	return n;
}
// nmk( kind, socket, data/limit, expected-failure )
static void h_nmk(WRContext*, const WRValue* argv, const int argn, WRValue&, void* usr)
{
	NetActor* a = (NetActor*)usr; a->kind = argv[0].asInt(); a->fd = argn > 1 ? argv[1].asInt() : -1; a->maxRead = 8192; a->sendData.clear(); a->expectFail = false;
	if (a->kind == N_SEND && argn > 2) { unsigned int n = 0; char* p = (char*)argv[2].deref().array(&n, SV_CHAR); if (p) a->sendData.assign(p, n); else { char b[64]; a->sendData = argv[2].asString(b, 63); } }
	if (a->kind == N_RECV && argn > 2) a->maxRead = argv[2].asInt();
	if (a->kind == N_CONNECT && argn > 2) a->expectFail = argv[2].asInt() != 0;
	a->rec = g_sim.rec.size(); a->openFds = actorFds(a->co); a->wasOpen = sim_fd(a->fd).open;
}
static void h_nck(WRContext*, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	NetActor* a = (NetActor*)usr; ++g_steps; COUNT("sched.network_operations");
	std::string moved; bool hard = false, failed = false, any = false; int okConnect = -1, accepted = -1, listened = -1; bool peerOp = false;
	for (size_t i = a->rec; i < g_sim.rec.size(); ++i)
	{
		SysRec& r = g_sim.rec[i]; if (r.actor != a->co) continue;
		if (r.injected && r.ret < 0) hard = true;
		if (r.ret < 0) failed = true;
		if ((r.op == "send" || (r.op == "recv" && !r.peek)) && r.ret >= 0) { any = true; if (r.fd == a->fd) moved += r.data; else peerOp = true; }
		if (r.op == "connect" && r.ret == 0) okConnect = r.fd;
		if (r.op == "accept" && r.ret >= 0) accepted = (int)r.ret;
		if (r.op == "listen" && r.ret == 0) listened = r.fd;
	}
	bool isStr; std::string got = bytesOf(argv[0], isStr); int r = isStr ? 0 : argv[0].asInt();
	std::string what = sfmt("%s %s(%d)", a->name.c_str(), c_netName[a->kind], a->fd);
	ev("%s -> %s%s", what.c_str(), isStr ? sfmt("%d bytes", (int)got.size()).c_str() : sfmt("%d", r).c_str(), hard ? " after a failure" : "");
	int held = actorFds(a->co) - a->openFds;
	FdInfo f = sim_fd(r);
	switch (a->kind)
	{
		case N_BIND: case N_ACCEPT: case N_CONNECT:
		{
			int real = a->kind == N_BIND ? listened : a->kind == N_ACCEPT ? accepted : okConnect;
			if (held != (r >= 0 ? 1 : 0)) violate("descriptor-leak", "%s gives %d and leaves %d sockets", what.c_str(), r, held);
			if (r >= 0 && (r != real || !f.open || (a->kind == N_BIND ? !f.listening : !f.conn))) violate("false-success", "%s gives %d, which is not the socket it made (%d)", what.c_str(), r, real);
			if (r < 0 && !failed) { bool resolved = true; for (size_t i = a->rec; i < g_sim.rec.size(); ++i) if (g_sim.rec[i].actor == a->co && g_sim.rec[i].op == "getaddrinfo" && g_sim.rec[i].ret < 0) resolved = false; if (resolved) violate("false-failure", "%s fails although nothing failed", what.c_str()); }
			if (r >= 0 && a->expectFail) violate("false-success", "%s connects although the name does not resolve", what.c_str());
			break;
		}
		case N_CLOSE:
		{
			if (a->fd >= 0 && held > 0) violate("descriptor-leak", "%s", what.c_str());
			bool closed = false;
			for (size_t i = a->rec; i < g_sim.rec.size(); ++i)
			{
				SysRec& q = g_sim.rec[i]; if (q.actor != a->co || q.op != "close") continue;
				if (q.fd == a->fd) closed = true; else if (q.ret == 0) violate("wrong-connection", "%s closes %d", what.c_str(), q.fd);
			}
			if (a->wasOpen && !closed) violate("descriptor-leak", "%s leaves the socket open", what.c_str());
			break;
		}
		case N_SEND:
			if (peerOp) violate("wrong-connection", "%s sends on another descriptor", what.c_str());
			if (moved.size() > a->sendData.size() || a->sendData.compare(0, moved.size(), moved)) violate("altered", "%s was given %d bytes and sent %d others", what.c_str(), (int)a->sendData.size(), (int)moved.size());
			if (r >= 0 && (size_t)r != moved.size()) violate("false-count", "%s reports %d bytes, the network accepted %d", what.c_str(), r, (int)moved.size());
			if (r < 0 && !moved.empty()) violate("false-count", "%s reports failure, but the network accepted %d bytes", what.c_str(), (int)moved.size());
			if (r >= 0 && moved.empty() && a->sendData.size()) violate("false-success", "%s sent nothing and reports %d", what.c_str(), r);
			if (!failed && a->sendData.size() && moved.empty()) violate("false-failure", "%s sends nothing although nothing failed", what.c_str());
			if (a->sentTo) *a->sentTo += moved;
			wr_makeInt(&ret, r);
			break;
		case N_RECV:
			if (peerOp) violate("wrong-connection", "%s receives from another descriptor", what.c_str());
			if (got != moved) violate("altered", "%s returns %d bytes, the network delivered %d%s", what.c_str(), (int)got.size(), (int)moved.size(), got.size() == moved.size() ? " others" : "");
			if (!isStr && r > 0) violate("altered", "%s returns the number %d", what.c_str(), r);
			if (!failed && !any && a->maxRead > 0) violate("false-failure", "%s does not receive", what.c_str());
			if ((int)got.size() > std::max(a->maxRead, 0)) violate("altered", "%s returns more than %d bytes", what.c_str(), a->maxRead);
			a->taken += got; wr_makeInt(&ret, (int)got.size());
			break;
		case N_PEEK:
		{
			FdInfo q = sim_fd(a->fd); bool can = q.listening ? true : q.conn && (q.avail || q.fin || q.reset);
			if (r > 0 && q.conn && !can) violate("false-success", "%s reports data, there is none", what.c_str());
			if (r <= 0 && q.conn && q.avail && !failed) violate("false-failure", "%s reports none, there are %d bytes", what.c_str(), (int)q.avail);
			break;
		}
		default: if (held) violate("descriptor-leak", "%s leaves %d sockets", what.c_str(), held);
	}
}
static void h_piece(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	unsigned k = (unsigned)argv[0].asInt(), off = argn > 1 ? (unsigned)argv[1].asInt() : 0;
	if (k < g_blobs.size() && off < g_blobs[k].size()) wr_makeString(c, &ret, g_blobs[k].data() + off, (int)(g_blobs[k].size() - off));
}
static void h_nap(WRContext*, const WRValue* argv, const int argn, WRValue&, void*) { int64_t u = g_sim.monoUs + (argn ? argv[0].asInt() : 1) * 1000ll; sim_wait([u] { return g_sim.monoUs >= u; }, u); }
static void h_flag(WRContext*, const WRValue* argv, const int argn, WRValue&, void* usr) { NetActor* a = (NetActor*)usr; if (argv[0].asInt() == 1) a->complete = true; else a->gaveUp = true; }

static std::string sendStep(int blob, int id, const char* sock)
{
	int n = (int)g_blobs[blob].size();
	return sfmt("if ( ok ) { var o%d = 0; var t%d = 0; while ( ok && o%d < %d ) { var p%d = piece( %d, o%d ); nmk( %d, %s, p%d ); var r%d = tcp::send( %s, p%d ); nck( r%d ); if ( r%d > 0 ) { o%d += r%d; t%d = 0; } else { ++t%d; if ( t%d > 12 ) { ok = 0; flag( 2 ); } } } }\n",
		id, id, id, n, id, blob, id, N_SEND, sock, id, id, sock, id, id, id, id, id, id, id, id);
}
// gt counts everything taken in: a call that asks for no particular amount may take the start of the next message
static std::string recvStep(int total, int upTo, int id, const char* sock, bool peek)
{
	static const int sz[] = { 8192, 1, 5, 64, 1000, 9000 }; int m = sz[ch(6)]; if (m == 1 && total > 300) m = 64;
	bool dflt = !ch(4); std::string call = dflt ? sfmt("tcp::receive( %s )", sock) : sfmt("tcp::receive( %s, %d )", sock, m); if (dflt) m = 8192;
	if (!dflt) call = sfmt("tcp::receive( %s, l%d )", sock, id);
	std::string lim = dflt ? "8192" : sfmt("l%d", id);
	std::string pk = peek ? sfmt("nmk( %d, %s ); nck( tcp::peek( %s, %d ) ); ", N_PEEK, sock, sock, (int)ch(3) * 20) : "";
	return sfmt("if ( ok ) { var t%d = 0; while ( ok && gt < %d ) { var l%d = %d - gt; if ( l%d > %d ) { l%d = %d; } %snmk( %d, %s, %s ); var c%d = nck( %s ); if ( c%d > 0 ) { gt += c%d; t%d = 0; } else { ++t%d; if ( t%d > 12 ) { ok = 0; flag( 2 ); } } } }\n",
		id, upTo, id, upTo, id, m, id, m, pk.c_str(), N_RECV, sock, lim.c_str(), id, call.c_str(), id, id, id, id, id);
}
static std::string oddNet(int id, const char* sock)
{
	switch (ch(13))
	{
		case 0: return sfmt("nmk( %d, -1, 1 ); nck( tcp::connect( \"nowhere.test\", 7000 ) );\n", N_CONNECT);
		case 1: return sfmt("nmk( %d ); nck( tcp::send( -1, \"x\" ) );\n", N_ODD);
		case 2: return sfmt("nmk( %d, -1, 10 ); nck( tcp::receive( -1, 10 ) );\n", N_RECV);
		case 3: return sfmt("nmk( %d, -1 ); nck( tcp::accept( -1 ) );\n", N_ACCEPT);
		case 4: return sfmt("nmk( %d ); nck( tcp::connect( \"\", 7000 ) );\n", N_ODD);
		case 5: return sfmt("nmk( %d ); nck( tcp::send( %s ) );\n", N_ODD, sock);
		case 6: return sfmt("nmk( %d ); nck( tcp::receive() );\n", N_ODD);
		case 7: return sfmt("nmk( %d ); nck( tcp::connect( \"127.0.0.1\", 9999 ) );\n", N_ODD);
		case 8: return sfmt("nmk( %d ); nck( tcp::close() );\n", N_ODD);
		case 9: return sfmt("nmk( %d, %s, 0 ); nck( tcp::receive( %s, 0 ) );\n", N_RECV, sock, sock);
		case 10: return sfmt("nmk( %d, %s, -5 ); nck( tcp::receive( %s, -5 ) );\n", N_RECV, sock, sock);
		case 11: return sfmt("nmk( %d ); nck( tcp::peek( -1, 5 ) ); nck( tcp::peek() );\n", N_ODD);
		default: return sfmt("nmk( %d, -1, 1 ); nck( tcp::connect( 12345, 7000 ) );\n", N_CONNECT);
	}
}
void run_C16()
{
	uint64_t zero = g_al.liveBlocks;
	simio_activate(); g_blobs.clear(); g_na.clear();
	int mode = ch(4); bool benign = true;
	if (mode)
	{
		static const uint32_t pc[] = { 3, 10, 30 }; g_net.faultPct = pc[ch(3)]; g_net.partialSend = ch(2); g_net.eintr = ch(2); g_net.delay = ch(2);
		if (ch(2)) { benign = false; g_net.refuse = ch(2); g_net.reset = ch(2); g_net.resolveFail = ch(2); g_net.socketFail = !ch(3); g_net.dropSyn = !ch(3); g_net.bindFail = !ch(3); g_net.acceptFail = !ch(3); }
	}
	if (ch(2)) { static const uint32_t ms[] = { 1, 7, 100, 1460 }; g_net.maxSegment = ms[ch(4)]; }
	if (ch(2)) { static const uint32_t wn[] = { 16, 200, 4000 }; g_net.window = wn[ch(3)]; }
	int pairs = 1 + ch(2); std::vector<NetActor*> as; std::vector<std::string> expect; std::vector<std::string*> sent;
	for (int p = 0; p < pairs; ++p)
	{
		NetActor* a[2] = { new NetActor, new NetActor }; static const int portBase[] = { 7000, 40000, 65000, 32760, 21 }; int port = portBase[ch(5)] + p * 11; int id = 0;
		a[0]->name = sfmt("server%d", p); a[1]->name = sfmt("client%d", p);
		std::string odd0 = !ch(3) ? oddNet(0, "s") : "", odd1 = !ch(3) ? oddNet(0, "s") : "";
		a[0]->src = sfmt("var ok = 1; var gt = 0; var s = -1; var l = -1; var tr = 0; while ( l < 0 && tr < 25 ) { nmk( %d ); l = tcp::bind( %d ); nck( l ); ++tr; if ( l < 0 ) { nap( 20 ); } } if ( l < 0 ) { ok = 0; flag( 2 ); }\n%s", N_BIND, port, odd0.c_str());
		a[0]->src += sfmt("tr = 0; while ( ok && s < 0 && tr < 25 ) { nmk( %d ); s = tcp::accept( l ); nck( s ); ++tr; } if ( s < 0 ) { ok = 0; flag( 2 ); }\n", N_ACCEPT);
		const char* host[] = { "\"peer.test\"", "\"127.0.0.1\"", "\"10.0.0.1\"", "adr[0]", "adr[1]", "hh[\"h\"]", "\"192.168.34.205\"", "\"172.16.254.9\"", "\"223.1.2.3\"" };
		a[1]->src = sfmt("var ok = 1; var gt = 0; var s = -1; var tr = 0; var adr[] = { \"127.0.0.1\", \"peer.test\" }; var hh = {}; hh[\"h\"] = \"10.0.0.1\"; while ( s < 0 && tr < 40 ) { nmk( %d ); s = tcp::connect( %s, %d ); nck( s ); ++tr; if ( s < 0 ) { nap( 30 ); } } if ( s < 0 ) { ok = 0; flag( 2 ); }\n%s", N_CONNECT, host[ch(9)], port, odd1.c_str());
		int steps = 1 + ch(6); std::string exp[2]; // what actor k should have taken in
		for (int k = 0; k < steps; ++k)
		{
			static const int sz[] = { 1, 6, 40, 300, 2000, 9000 }; int n = sz[ch(g_net.maxSegment < 50 || g_net.window < 50 ? 4 : 6)]; int from = ch(2);
			g_blobs.push_back(blobText(n)); int b = (int)g_blobs.size() - 1;
			a[from]->src += sendStep(b, ++id, "s"); exp[1 - from] += g_blobs[b]; a[1 - from]->src += recvStep(n, (int)exp[1 - from].size(), ++id, "s", !ch(3));
			if (k + 1 < steps) { g_blobs.push_back(blobText(1)); int q = (int)g_blobs.size() - 1; a[1 - from]->src += sendStep(q, ++id, "s"); exp[from] += g_blobs[q]; a[from]->src += recvStep(1, (int)exp[from].size(), ++id, "s", false); }
			if (!ch(6)) { int who = ch(2); a[who]->src += oddNet(++id, "-1"); }
		}
		for (int k = 0; k < 2; ++k)
		{
			a[k]->src += "if ( ok ) { flag( 1 ); }\n";
			if (ch(4)) a[k]->src += sfmt("nmk( %d, s ); nck( tcp::close( s ) );\n", N_CLOSE);
			if (!ch(4)) a[k]->src += sfmt("nmk( %d, s, \"late\" ); nck( tcp::send( s, \"late\" ) );\n", N_SEND);
			if (!ch(4)) a[k]->src += sfmt("nmk( %d, s, 50 ); nck( tcp::receive( s, 50 ) );\n", N_RECV);
			if (!ch(4)) a[k]->src += sfmt("nmk( %d, s ); nck( tcp::close( s ) );\n", N_CLOSE);
			noteBlock(a[k]->name.c_str(), a[k]->src); as.push_back(a[k]); expect.push_back(exp[k]);
		}
	}
	bool clean = benign;
	for (size_t i = 0; i < as.size(); ++i)
	{
		NetActor* a = as[i];
		if (!compileTo(a->src, a->im)) violate("sim", "the generated script does not compile");
		a->w = newState(300); wr_registerFunction(a->w, "nmk", h_nmk, a); wr_registerFunction(a->w, "nck", h_nck, a); wr_registerFunction(a->w, "piece", h_piece, 0); wr_registerFunction(a->w, "nap", h_nap, 0); wr_registerFunction(a->w, "flag", h_flag, a);
		wr_setAllocatedMemoryGCHint(a->w, ch(2) ? 0 : 1000);
		a->co = co_spawn([a] { WRContext* c = wr_run(a->w, &a->im[0], (int)a->im.size()); if (!c) a->err = (int)wr_getLastError(a->w); a->ended = true; }, a->name.c_str());
	}
	// a native host process using the calls directly, with time limits
	bool native = !ch(3); NetActor nat; std::string natNote;
	if (native)
	{
		int lport = 7500; bool peer = ch(2); int ms = 1 + ch(900);
		nat.name = "native"; sched("native waits %d ms", ms);
		co_spawn([peer, ms, lport] {
			int l = wr_bindTCPEx(lport); if (l < 0) return;
			int s = wr_connectTCPEx("127.0.0.1", lport); if (s < 0) { wr_closeTCPEx(l); return; }
			sockaddr info; int t = peer ? wr_acceptTCPEx(l, &info) : -1;
			int64_t t0 = g_sim.monoUs; char b[16]; int r = wr_receiveTCPEx(s, b, 16, ms); int64_t dt = g_sim.monoUs - t0;
			if (r > 0) violate("altered", "a native receive returns %d bytes nobody sent", r);
			if (dt > ms * 1000ll + 1000000 && !g_netDown) violate("timeout", "a receive limited to %d ms takes %lld ms", ms, (long long)dt / 1000);
			if (dt < ms * 1000ll - 1000 && !g_net.faultPct) violate("timeout", "a receive limited to %d ms gives up after %lld ms", ms, (long long)dt / 1000);
			t0 = g_sim.monoUs; r = wr_peekTCPEx(s, ms); dt = g_sim.monoUs - t0;
			if (r > 0 && !sim_fd(s).reset) violate("altered", "a native peek reports data nobody sent");
			if (dt > ms * 1000ll + 1000000 && !g_netDown) violate("timeout", "a peek limited to %d ms takes %lld ms", ms, (long long)dt / 1000);
			if (t >= 0) wr_closeTCPEx(t);
			wr_closeTCPEx(s); wr_closeTCPEx(l);
			COUNT("sched.native_timeouts");
		}, "native");
	}
	g_phase = "network operations";
	uint64_t limit = 400000;
	co_runAll(limit);
	bool stuck = !co_allDone();
	if (stuck) { COUNT("sched.network_down"); bool open = false, up = false; for (size_t i = 0; i < as.size(); ++i) { if (as[i]->gaveUp) up = true; if (!as[i]->complete) open = true; } if (clean && open && !up) violate("hang", "without a reset or refusal the processes wait for each other: %s", co_describe().c_str()); sim_netDown(); co_runAll(limit); }
	if (!co_allDone()) violate("hang", "after the network went down a process still does not end: %s", co_describe().c_str());
	g_phase = "after";
	for (size_t i = 0; i < as.size(); ++i)
	{
		NetActor* a = as[i];
		if (a->err) violate("script-failed", "%s ends with error %d because of a network result", a->name.c_str(), a->err);
		if (clean && !a->complete && !a->gaveUp) violate("incomplete", "%s did not complete its exchange", a->name.c_str());
		if (clean && !g_net.eintr && a->gaveUp) violate("incomplete", "%s gave up its exchange although nothing but delays and partial transfers happened", a->name.c_str());
		if (expect[i].compare(0, a->taken.size(), a->taken) && !(a->complete && a->taken.size() > expect[i].size() && !a->taken.compare(0, expect[i].size(), expect[i]))) violate("altered", "%s took in %d bytes that are not what its peer sent (%d)", a->name.c_str(), (int)a->taken.size(), (int)expect[i].size());
		if (a->complete && a->taken.size() < expect[i].size()) violate("altered", "%s completed with %d of %d bytes", a->name.c_str(), (int)a->taken.size(), (int)expect[i].size());
		if (a->complete) COUNT("sched.exchanges_completed");
	}
	for (size_t i = 0; i < as.size(); ++i) { wr_destroyState(as[i]->w); delete as[i]; }
	co_reset(); if (sim_addrInfos()) violate("resolver-leak", "%d answers of the resolver were never given back", sim_addrInfos());
	simio_deactivate();
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
}

// ---------------------------------------------------------------- C19
struct ClockRead { uint32_t ms; int64_t trueUs; };
static std::vector<ClockRead> g_reads; static int g_stepsBack;
static void h_ms(WRContext*, const WRValue* argv, const int argn, WRValue&, void* usr)
{
	uint32_t v = (uint32_t)argv[0].asInt(); int64_t t = g_sim.monoUs;
	ev("time::ms %u at %lld us", v, (long long)t); ++g_steps; COUNT("sched.clock_reads");
	if (!g_reads.empty())
	{
		ClockRead& p = g_reads.back(); int32_t d = (int32_t)(v - p.ms); int64_t real = (t - p.trueUs) / 1000;
		if (d < 0) violate("backwards", "the millisecond clock goes back by %d ms", -d);
		if (d > real + 2 || d < real - 2) violate("wrong-advance", "%lld ms passed, the millisecond clock advanced by %d", (long long)real, d);
	}
	ClockRead c; c.ms = v; c.trueUs = t; g_reads.push_back(c);
	(void)argn; (void)usr;
}
static int64_t g_wallBefore;
static void h_tb(WRContext*, const WRValue*, const int, WRValue&, void*) { g_wallBefore = g_sim.wallUs / 1000000; }
static void h_tm(WRContext*, const WRValue* argv, const int, WRValue&, void*)
{
	int32_t v = argv[0].asInt(); int64_t now = g_sim.wallUs / 1000000; ++g_steps; COUNT("sched.calendar_reads");
	ev("std::time %d", v);
	if (v < (int32_t)g_wallBefore || v > (int32_t)now) violate("wrong-time", "std::time gives %d, the system's time is %lld", v, (long long)now);
}
// the world's clock: time passes, somebody steps the wall clock, it drifts
static void h_world(WRContext* c, const WRValue* argv, const int argn, WRValue&, void*)
{
	switch (ch(6))
	{
		case 0: break;
		case 1: { int64_t d = ch(5000); g_sim.monoUs += d; g_sim.wallUs += d; sched("%lld us pass", (long long)d); break; }
		case 2: { int64_t d = (int64_t)ch(100000) * 1000; g_sim.monoUs += d; g_sim.wallUs += d; sched("%lld us pass", (long long)d); COUNT("fault.stalled"); break; }
		case 3: { int64_t d = (int64_t)(1 + ch(100000)) * 1000000; if (g_sim.wallUs - d > 1000000) { g_sim.wallUs -= d; sched("wall clock stepped back %lld us", (long long)d); COUNT("fault.clock_step_back"); } break; }
		case 4: { int64_t d = (int64_t)(1 + ch(100000)) * 1000000; if (g_sim.wallUs + d < 2147000000ll * 1000000) { g_sim.wallUs += d; sched("wall clock stepped forward %lld us", (long long)d); COUNT("fault.clock_step_forward"); } break; }
		case 5: { int64_t d = 1 + ch(900); g_sim.wallUs -= d * 1000; sched("wall clock slewed back %lld ms", (long long)d); COUNT("fault.clock_slew"); break; }
	}
	if (g_callbackHook) g_callbackHook(c, "world"); (void)argv; (void)argn;
}
void run_C19()
{
	uint64_t zero = g_al.liveBlocks;
	simio_activate(); g_reads.clear();
	g_sim.wallUs = (int64_t)(1000000 + ch(2000000000)) * 1000000 + ch(1000000); g_sim.monoUs = (int64_t)ch(5000000) * 1000000 + ch(1000000); g_sim.autoAdvanceUs = ch(3) ? ch(400) : 0;
	int ns = 1 + ch(3); std::vector<Plan> ps(ns); std::vector<Bytes> ims(ns); std::vector<Script> ss(ns); std::vector<std::string> names;
	for (int i = 0; i < ns; ++i)
	{
		std::string src = "function poll( n ) { var t = time::ms(); seen( t ); world( n ); return t; }\n"; int n = 2 + ch(10);
		for (int k = 0; k < n; ++k) switch (ch(5))
		{
			case 0: src += "seen( time::ms() ); world();\n"; break;
			case 1: src += "tb(); tm( std::time() ); world();\n"; break;
			case 2: src += sfmt("for ( var i%d = 0; i%d < %d; ++i%d ) { seen( time::ms() ); world(); }\n", k, k, 1 + (int)ch(5), k); break;
			case 3: src += sfmt("poll( %d );\n", k); break;
			case 4: src += sfmt("var a%d = time::ms(); seen( a%d ); world(); tb(); var b%d = std::time(); tm( b%d );\n", k, k, k, k); break;
		}
		ps[i].src = src; noteBlock(sfmt("script%d", i).c_str(), src); names.push_back(sfmt("script%d", i));
		if (!compileTo(src, ims[i])) violate("sim", "the generated script does not compile");
	}
	WRState* w = newState(300); wr_registerFunction(w, "seen", h_ms, 0); wr_registerFunction(w, "tb", h_tb, 0); wr_registerFunction(w, "tm", h_tm, 0); wr_registerFunction(w, "world", h_world, 0);
	g_cbForcePct = ch(2) ? 30 : 0; g_callbackHook = cbForce; worldArm(w);
	std::vector<int> live; for (int i = 0; i < ns; ++i) { ss[i].logGlobals = false; scriptLoad(ss[i], w, &ps[i], &ims[i], names[i].c_str()); live.push_back(i); }
	g_phase = "clocks";
	while (!live.empty())
	{
		int k = ch((uint32_t)live.size()); Script& s = ss[live[k]]; setSlice(w, s.entries > 2000 ? 0 : budget()); if (s.entries > 2000) g_cbForcePct = 0; scriptStep(s, 0);
		if (s.done()) { if (s.lastErr) violate("script-failed", "error %d", s.lastErr); live.erase(live.begin() + k); }
	}
	worldOff(); g_callbackHook = 0; g_cbForcePct = 0; setSlice(w, 0);
	wr_destroyState(w); simio_deactivate();
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left", (long long)(g_al.liveBlocks - zero));
}
