/* sx: path-wise symbolic execution of LLVM IR, decided by Z3.
 * Every path of the entry function is followed; symbolic inputs come from vp_u64()/vp_u8(); a branch on a symbolic
 * condition forks where the solver finds both sides feasible; memory errors and failed assertions are reported with
 * a model of the inputs.  Addresses are concrete (one layout, every object in a range of its own). */
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <llvm/ADT/DenseMap.h>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <vector>
#include <string>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cinttypes>
using namespace llvm;
typedef uint64_t u64;
static z3::context Z;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Unsupported { std::string what; };
[[noreturn]] static void unsup(std::string const &s){ throw Unsupported{s}; }

/* ---- values ---- */
struct Val {
	enum K : uint8_t { NONE, INT, LD, AGG } k = NONE;
	uint16_t hi = 0;                        /* LD: sign and exponent, the mantissa is in c */
	uint32_t w = 0;
	u64 c = 0;
	std::shared_ptr<z3::expr> e;            /* symbolic when set */
	std::shared_ptr<std::vector<Val>> agg;
	bool sym() const { return (bool)e; }
};
static u64 mask(uint32_t w){ return w>=64? ~0ull : (1ull<<w)-1; }
static Val mk(uint32_t w, u64 c){ Val v; v.k=Val::INT; v.w=w; v.c=c&mask(w); return v; }
static Val mkld(long double d){ Val v; v.k=Val::LD; v.w=80; memcpy(&v.c, &d, 8); memcpy(&v.hi, (char*)&d+8, 2); return v; }
static long double ldof(Val const &v){ long double d=0; memcpy(&d, &v.c, 8); memcpy((char*)&d+8, &v.hi, 2); return d; }
static bool is_num(z3::expr const &e, u64 &out){ return e.is_numeral() && e.get_sort().bv_size()<=64 && Z3_get_numeral_uint64(Z, e, (uint64_t*)&out); }
/* terms are shared, so the same one is simplified once */
static z3::expr simp(z3::expr const &e){
	static std::unordered_map<unsigned,std::pair<z3::expr,z3::expr>> known;
	unsigned const id = Z3_get_ast_id(Z, e);
	auto i = known.find(id);
	if( i!=known.end() ) return i->second.second;
	z3::expr r = e.simplify();
	if( known.size()>1500000 ) known.clear();
	known.insert({id, {e, r}});
	return r;
}
static Val mke(z3::expr const &e0){
	z3::expr e = simp(e0);
	uint32_t const w = e.get_sort().bv_size();
	u64 c;
	if( is_num(e, c) ) return mk(w, c);
	Val v; v.k=Val::INT; v.w=w; v.e=std::make_shared<z3::expr>(e); return v;
}
static Val raw(z3::expr const &e, uint32_t w){ Val v; v.k=Val::INT; v.w=w; v.e=std::make_shared<z3::expr>(e); return v; }
static z3::expr ex(Val const &v){
	if( v.sym() ) return *v.e;
	if( v.k!=Val::INT ) unsup("expression of a non-integer");
	return Z.bv_val((uint64_t)v.c, v.w);
}
static z3::expr b2v(z3::expr const &b){ return z3::ite(b, Z.bv_val(1,1), Z.bv_val(0,1)); }
static z3::expr tru(Val const &v){ return ex(v)==Z.bv_val(1,1); }
static int64_t sx64(u64 c, uint32_t w){ return w>=64? (int64_t)c : (int64_t)(c<<(64-w))>>(64-w); }

/* ---- memory ---- */
struct SB { uint32_t idx, w; std::shared_ptr<z3::expr> e; };
enum Kind : uint8_t { GLOBAL, STACK, HEAP, HOST };
struct Obj {
	u64 base=0, size=0; Kind kind=GLOBAL; bool freed=false, ro=false;
	std::string name;
	std::vector<uint8_t> b, st;   /* st: 0 not initialised, 1 concrete, 2 symbolic */
	std::unordered_map<u64,SB> sy;
};
typedef std::shared_ptr<Obj> ObjP;

struct FInfo { Function *f; DenseMap<Value const*,int> slot; int n=0; u64 addr=0; };
struct Frame {
	FInfo *fi; BasicBlock *bb, *prev=nullptr; BasicBlock::iterator it;
	std::vector<Val> r; std::vector<u64> allocas; u64 va=0; CallBase *site=nullptr;
};
typedef std::shared_ptr<std::vector<unsigned> const> Vars;
struct PCNode { std::shared_ptr<PCNode> up; z3::expr e; Vars vars; };
/* values of the inputs that satisfy a path's condition; inputs not mentioned are 0 */
struct Model {
	std::map<unsigned,u64> v;
	std::unique_ptr<z3::model> zm;
	z3::expr eval(z3::expr const &e, bool);
};
typedef std::shared_ptr<Model> ModelP;
struct State {
	std::vector<Frame> st;
	std::map<u64,ObjP> mem;
	std::shared_ptr<PCNode> pc;
	ModelP model = std::make_shared<Model>();
	std::vector<Val> inputs;
	u64 brk = 0x10000000, steps = 0;
	unsigned fresh = 0;
	u64 choice = 0; bool choice_set = false;
};
typedef std::unique_ptr<State> StateP;

/* ---- globals of a run ---- */
static std::unique_ptr<Module> M;
static DataLayout const *DL;
static std::vector<StateP> work;
static std::map<Function const*,std::unique_ptr<FInfo>> finfo;
static std::map<u64,Function*> faddr;
static std::map<GlobalValue const*,u64> gaddr;
static u64 n_paths, n_infeasible, n_queries, n_asserts, n_instr, n_forks, n_reads, n_errpaths, max_steps=20000000;
static double solver_s, deadline, t0;
static unsigned max_err = 6;
struct Err { std::string kind, msg, loc; std::vector<std::string> inputs; };
static std::vector<Err> errors;
static std::set<std::string> err_seen, reach_hit, reach_all, covered;
static z3::solver *S;
static std::string status = "ok";
struct Stop {};
struct Kill {};      /* this path ends */
struct Redo {};      /* instruction re-executes in the (changed) state */

/* ---- solver: independent parts of the path condition are left out, verdicts are remembered ---- */
static std::vector<z3::expr> var_expr;                 /* every symbolic input or uninitialised byte */
static std::unordered_map<std::string,unsigned> var_byname;
static std::unordered_map<unsigned,std::pair<z3::expr,unsigned>> var_byid;   /* by id of the declared constant */
static z3::expr var(std::string const &name, uint32_t w){
	auto i = var_byname.find(name);
	if( i!=var_byname.end() ) return var_expr[i->second];
	z3::expr e = Z.bv_const(name.c_str(), w);
	unsigned const k = (unsigned)var_expr.size();
	var_byname[name] = k; var_expr.push_back(e); var_byid.insert({Z3_get_ast_id(Z, e), {e, k}});
	return e;
}
static std::unordered_map<unsigned,std::pair<z3::expr,Vars>> vars_cache;
static Vars varsof(z3::expr const &e){
	unsigned const id = Z3_get_ast_id(Z, e);
	auto i = vars_cache.find(id);
	if( i!=vars_cache.end() ) return i->second.second;
	std::set<unsigned> out;
	auto b = var_byid.find(id);
	if( b!=var_byid.end() ) out.insert(b->second.second);
	else if( e.is_app() ) for( unsigned k=0;k<e.num_args();k++ ) { Vars v = varsof(e.arg(k)); out.insert(v->begin(), v->end()); }
	auto r = std::make_shared<std::vector<unsigned> const>(out.begin(), out.end());
	vars_cache.insert({id, {e, r}});
	return r;
}
z3::expr Model::eval(z3::expr const &e, bool){
	if( !zm ) {
		zm = std::make_unique<z3::model>(Z);
		for( auto &q : v ) { z3::func_decl d = var_expr[q.first].decl(); z3::expr c = Z.bv_val((uint64_t)q.second, var_expr[q.first].get_sort().bv_size()); zm->add_const_interp(d, c); }
	}
	return zm->eval(e, true);
}
static bool is_num(z3::expr const &e, u64 &out);
struct Verdict { bool sat; std::vector<std::pair<unsigned,u64>> v; std::vector<z3::expr> keep; };
static std::map<std::vector<unsigned>,Verdict> verdicts;
static u64 n_cached;
static void newsolver(){
	delete S;
	S = new z3::solver(Z, "QF_BV");
	z3::params p(Z); p.set("timeout", 60000u); S->set(p);
}
static bool check(State &s, z3::expr const *extra, ModelP *mod){
	if( now()>deadline ) { status = "timeout"; throw Stop(); }
	double const a = now();
	n_queries++;
	std::vector<PCNode*> all, rel;
	for( PCNode *p=s.pc.get(); p; p=p->up.get() ) all.push_back(p);
	std::set<unsigned> want;
	if( extra ) { Vars v = varsof(*extra); want.insert(v->begin(), v->end()); }
	std::vector<bool> in(all.size(), !extra);
	for( bool more=(bool)extra; more; ) {
		more = false;
		for( size_t i=0;i<all.size();i++ ) if( !in[i] ) {
			bool hit=false;
			for( unsigned k : *all[i]->vars ) if( want.count(k) ) { hit=true; break; }
			if( hit ) { in[i]=true; more=true; want.insert(all[i]->vars->begin(), all[i]->vars->end()); }
		}
	}
	std::vector<unsigned> key;
	for( size_t i=0;i<all.size();i++ ) if( in[i] ) { rel.push_back(all[i]); key.push_back(Z3_get_ast_id(Z, all[i]->e)); }
	std::sort(key.begin(), key.end());
	if( extra ) key.push_back(Z3_get_ast_id(Z, *extra));
	auto f = verdicts.find(key);
	if( f==verdicts.end() ) {
		Verdict vd;
		S->push();
		for( auto *p : rel ) { S->add(p->e); vd.keep.push_back(p->e); }
		if( extra ) { S->add(*extra); vd.keep.push_back(*extra); }
		z3::check_result const r = S->check();
		if( r==z3::unknown ) { S->pop(); status = "unknown"; throw Stop(); }
		vd.sat = r==z3::sat;
		if( vd.sat ) {
			z3::model m = S->get_model();
			if( !extra ) for( auto *p : rel ) want.insert(p->vars->begin(), p->vars->end());
			for( unsigned k : want ) { u64 c=0; if( !is_num(m.eval(var_expr[k], true), c) ) unsup("model value"); vd.v.push_back({k,c}); }
		}
		S->pop();
		f = verdicts.insert({key, vd}).first;
	} else n_cached++;
	solver_s += now()-a;
	if( f->second.sat && mod ) {
		auto m = std::make_shared<Model>();
		if( s.model ) m->v = s.model->v;
		for( auto &q : f->second.v ) m->v[q.first] = q.second;
		*mod = m;
	}
	return f->second.sat;
}
static void add(State &s, z3::expr const &e){
	z3::expr q = simp(e);
	if( q.is_true() ) return;
	s.pc = std::make_shared<PCNode>(PCNode{s.pc, q, varsof(q)});
}
/* value of a term under the path's model, remembered per values of the inputs it depends on */
struct EKey { unsigned id; u64 v[3]; bool operator==(EKey const &o) const { return id==o.id && v[0]==o.v[0] && v[1]==o.v[1] && v[2]==o.v[2]; } };
struct EHash { size_t operator()(EKey const &k) const { u64 h=k.id; for( u64 x : k.v ) h = (h ^ x)*0x9e3779b97f4a7c15ull, h ^= h>>29; return h; } };
static u64 evalany(State &s, z3::expr const &e){
	static std::unordered_map<EKey,u64,EHash> known;
	static std::unordered_map<unsigned,z3::expr> keep;
	Vars vs = varsof(e);
	EKey k{Z3_get_ast_id(Z, e), {0,0,0}};
	bool const memo = vs->size()<=3;
	if( memo ) {
		for( size_t i=0;i<vs->size();i++ ) { auto f = s.model->v.find((*vs)[i]); if( f!=s.model->v.end() ) k.v[i] = f->second; }
		auto f = known.find(k);
		if( f!=known.end() ) return f->second;
	}
	z3::expr v = s.model->eval(e, true);
	u64 c;
	if( v.is_true() ) c = 1; else if( v.is_false() ) c = 0; else if( !is_num(v, c) ) unsup("model evaluation");
	if( memo ) { if( known.size()>1000000 ) { known.clear(); keep.clear(); } known[k] = c; keep.insert({k.id, e}); }
	return c;
}
static bool evalb(State &s, z3::expr const &e){ return evalany(s, e)!=0; }
static u64 evalv(State &s, z3::expr const &e){ return evalany(s, e); }
static StateP clone(State &s){ n_forks++; return std::make_unique<State>(s); }
/* both: bit 0 = can be false, bit 1 = can be true; models in mf, mt */
static int sides(State &s, z3::expr const &c, ModelP &mf, ModelP &mt){
	z3::expr q = simp(c);
	if( q.is_true() ) { mt = s.model; return 2; }
	if( q.is_false() ) { mf = s.model; return 1; }
	bool const v = evalb(s, q);
	if( v ) { mt = s.model; z3::expr n = simp(!q); return 2 | (check(s, &n, &mf)? 1 : 0); }
	mf = s.model; return 1 | (check(s, &q, &mt)? 2 : 0);
}
static std::string where(State &s){
	std::string o;
	for( size_t i=s.st.size(); i-->0 && o.size()<300; ) {
		Frame &f = s.st[i];
		Instruction *I = f.it==f.bb->end()? &f.bb->back() : &*f.it;
		o += f.fi->f->getName().str();
		if( DILocation *d = I->getDebugLoc() ) o += "@" + d->getFilename().str() + ":" + std::to_string(d->getLine());
		if( i ) o += " < ";
	}
	return o;
}
static void report(State &s, std::string const &kind, std::string const &msg, ModelP m){
	std::string loc = where(s), key = kind + "|" + msg + "|" + loc.substr(0, loc.find(" < "));
	n_errpaths++;
	if( err_seen.insert(key).second ) {
		Err e{kind, msg, loc, {}};
		for( auto const &v : s.inputs ) {
			u64 c = v.c;
			if( v.sym() ) { z3::expr x = m? m->eval(*v.e, true) : *v.e; if( !is_num(x, c) ) c = 0; }
			e.inputs.push_back(std::to_string(c));
		}
		errors.push_back(e);
		if( errors.size()>=max_err ) throw Stop();
	} else if( n_errpaths>5000 ) throw Stop();
}
[[noreturn]] static void error(State &s, std::string const &kind, std::string const &msg){
	report(s, kind, msg, s.model); throw Kill();
}
/* make a symbolic value concrete: the other values are followed in a clone that executes the instruction again */
static u64 conc(State &s, Val &v){
	if( v.k!=Val::INT ) unsup("concrete integer expected");
	if( !v.sym() ) return v.c;
	u64 const c = evalv(s, *v.e);
	z3::expr eq = (*v.e)==Z.bv_val((uint64_t)c, v.w), ne = !eq;
	ModelP m;
	if( check(s, &ne, &m) ) {
		auto o = clone(s); add(*o, ne); o->model = m; work.push_back(std::move(o));
		add(s, eq);
	}
	v = mk(v.w, c);
	return c;
}

/* ---- memory operations ---- */
static u64 alloc(State &s, u64 size, Kind k, std::string const &name, bool zero, u64 align=16){
	if( align<16 ) align = 16;
	u64 const a = (s.brk + align-1)/align*align;
	s.brk = a + size + 64;
	auto o = std::make_shared<Obj>();
	o->base=a; o->size=size; o->kind=k; o->name=name; o->b.assign(size, 0); o->st.assign(size, zero? 1 : 0);
	s.mem[a] = o;
	return a;
}
static ObjP *find(State &s, u64 a){
	auto i = s.mem.upper_bound(a);
	if( i==s.mem.begin() ) return nullptr;
	--i;
	if( a > i->second->base + i->second->size ) return nullptr;
	return &i->second;
}
static Obj &wr(ObjP &p){ if( p.use_count()>1 ) p = std::make_shared<Obj>(*p); return *p; }
static char hexbuf[40];
static char const *hx(u64 v){ snprintf(hexbuf, sizeof hexbuf, "0x%" PRIx64, v); return hexbuf; }
static ObjP &access(State &s, u64 a, u64 n, bool write){
	if( a<4096 ) error(s, "memory", write? "write through a null pointer" : "read through a null pointer");
	ObjP *p = find(s, a);
	if( !p ) error(s, "memory", std::string(write? "write" : "read") + " through a wild pointer");
	Obj &o = **p;
	if( o.freed ) error(s, "memory", std::string(write? "write to" : "read from") + " a dead object " + o.name);
	if( a-o.base>o.size || n>o.size-(a-o.base) )
		error(s, "memory", std::string(write? "write" : "read") + " out of bounds of " + o.name);
	if( write && o.ro ) error(s, "memory", "write to read-only " + o.name);
	return *p;
}
/* names count along the path, so that equal questions on different paths are the same question */
static z3::expr fresh(State &s, uint32_t w, char const *tag){ return var(std::string(tag) + std::to_string(w) + "_" + std::to_string(s.fresh++), w); }
static z3::expr sbyte(SB const &b){ return b.w==8? *b.e : b.e->extract(8*b.idx+7, 8*b.idx); }
static void initbyte(State &s, ObjP &p, u64 i){
	Obj &o = wr(p);
	z3::expr f = fresh(s, 8, "u");
	o.st[i] = 2; o.sy.insert_or_assign(i, SB{0, 8, std::make_shared<z3::expr>(f)});
}
static Val loadint(State &s, u64 a, uint32_t bytes){
	ObjP &p = access(s, a, bytes, false);
	u64 const o = a-p->base;
	bool conc=true;
	for( uint32_t i=0;i<bytes;i++ ) if( p->st[o+i]!=1 ) conc = false;
	if( conc && bytes<=8 ) { u64 v=0; memcpy(&v, &p->b[o], bytes); return mk(bytes*8, v); }
	for( uint32_t i=0;i<bytes;i++ ) if( p->st[o+i]==0 ) initbyte(s, p, o+i);
	auto f = p->sy.find(o);
	if( f!=p->sy.end() && f->second.idx==0 && f->second.w==bytes*8 && p->st[o]==2 ) {
		bool same = true;
		for( uint32_t i=1; i<bytes && same; i++ ) {
			auto g = p->sy.find(o+i);
			same = p->st[o+i]==2 && g!=p->sy.end() && g->second.idx==i && (g->second.e==f->second.e || z3::eq(*g->second.e, *f->second.e));
		}
		if( same ) { Val v; v.k=Val::INT; v.w=bytes*8; v.e=f->second.e; return v; }
	}
	z3::expr_vector ev(Z);
	for( uint32_t i=bytes;i-->0; )
		ev.push_back(p->st[o+i]==2? sbyte(p->sy.at(o+i)) : Z.bv_val((uint64_t)p->b[o+i], 8));
	return mke(bytes==1? ev[0] : z3::concat(ev));
}
static void storeint(State &s, u64 a, Val const &v){
	uint32_t const bytes = (v.w+7)/8;
	ObjP &p = access(s, a, bytes, true);
	Obj &o = wr(p); u64 const off = a-o.base;
	if( !v.sym() ) {
		memcpy(&o.b[off], &v.c, bytes);
		for( uint32_t i=0;i<bytes;i++ ) { if( o.st[off+i]==2 ) o.sy.erase(off+i); o.st[off+i] = 1; }
	} else {
		std::shared_ptr<z3::expr> e = v.w%8? std::make_shared<z3::expr>(z3::zext(*v.e, bytes*8-v.w)) : v.e;
		for( uint32_t i=0;i<bytes;i++ ) { o.st[off+i] = 2; o.sy.insert_or_assign(off+i, SB{i, bytes*8, e}); }
	}
}
static uint8_t cbyte(State &s, u64 a){
	Val v = loadint(s, a, 1);
	if( !v.sym() ) return (uint8_t)v.c;
	u64 c = conc(s, v); storeint(s, a, v); return (uint8_t)c;
}
static Val load(State &s, u64 a, Type *t){
	if( t->isX86_FP80Ty() ) {
		ObjP &q = access(s, a, 10, false);
		auto f = q->st[a-q->base]==2? q->sy.find(a-q->base) : q->sy.end();
		if( f!=q->sy.end() && f->second.w==80 ) {
			bool same = true;
			for( uint32_t i=0;i<10 && same;i++ ) { auto g = q->sy.find(a-q->base+i); same = q->st[a-q->base+i]==2 && g!=q->sy.end() && g->second.w==80 && g->second.idx==i && z3::eq(*g->second.e, *f->second.e); }
			if( same ) { Val v; v.k=Val::LD; v.w=80; v.e=std::make_shared<z3::expr>(f->second.e->extract(63,0).simplify()); return v; }
		}
		uint8_t b[16]={0}; access(s, a, 10, false); for( int i=0;i<10;i++ ) b[i]=cbyte(s, a+i); long double d; memcpy(&d, b, 16); return mkld(d); }
	/* a short vector is its bits: it is only passed along */
	if( t->isIntegerTy() || t->isPointerTy() || t->isDoubleTy() || t->isFloatTy() || (t->isVectorTy() && t->getPrimitiveSizeInBits().getFixedValue()<=64) ) {
		uint32_t const w = t->isPointerTy()? 64 : (uint32_t)t->getPrimitiveSizeInBits().getFixedValue();
		if( w>64 ) unsup("load of a wide integer");
		Val v = loadint(s, a, (w+7)/8);
		if( v.w!=w ) v = v.sym()? mke(v.e->extract(w-1, 0)) : mk(w, v.c);
		return v;
	}
	if( auto *st = dyn_cast<StructType>(t) ) {
		Val v; v.k=Val::AGG; v.agg=std::make_shared<std::vector<Val>>();
		auto *L = DL->getStructLayout(st);
		for( unsigned i=0;i<st->getNumElements();i++ ) v.agg->push_back(load(s, a + L->getElementOffset(i), st->getElementType(i)));
		return v;
	}
	if( auto *at = dyn_cast<ArrayType>(t) ) {
		Val v; v.k=Val::AGG; v.agg=std::make_shared<std::vector<Val>>();
		u64 const es = DL->getTypeAllocSize(at->getElementType());
		for( u64 i=0;i<at->getNumElements();i++ ) v.agg->push_back(load(s, a + i*es, at->getElementType()));
		return v;
	}
	unsup("load type");
}
static void store(State &s, u64 a, Val const &v, Type *t){
	if( v.k==Val::LD && v.sym() ) {
		Obj &o = wr(access(s, a, 10, true)); u64 const off = a-o.base;
		auto e = std::make_shared<z3::expr>(z3::concat(Z.bv_val(0x7abc,16), *v.e));
		for( uint32_t i=0;i<10;i++ ) { o.st[off+i] = 2; o.sy.insert_or_assign(off+i, SB{i, 80, e}); }
		return;
	}
	if( v.k==Val::LD ) { uint8_t b[16]={0}; memcpy(b, &v.c, 8); memcpy(b+8, &v.hi, 2); ObjP &p=access(s, a, 10, true); (void)p; for( int i=0;i<10;i++ ) storeint(s, a+i, mk(8, b[i])); return; }
	if( v.k==Val::INT ) { storeint(s, a, v); return; }
	if( v.k==Val::AGG ) {
		if( auto *st = dyn_cast<StructType>(t) ) { auto *L=DL->getStructLayout(st); for( unsigned i=0;i<st->getNumElements();i++ ) store(s, a+L->getElementOffset(i), (*v.agg)[i], st->getElementType(i)); return; }
		if( auto *at = dyn_cast<ArrayType>(t) ) { u64 const es=DL->getTypeAllocSize(at->getElementType()); for( u64 i=0;i<at->getNumElements();i++ ) store(s, a+i*es, (*v.agg)[i], at->getElementType()); return; }
	}
	if( v.k==Val::NONE ) { u64 const n = DL->getTypeStoreSize(t); ObjP &p = access(s, a, n, true); Obj &o = wr(p); for( u64 i=0;i<n;i++ ) { o.sy.erase(a-o.base+i); o.st[a-o.base+i]=0; } return; }
	unsup("store type");
}
/* read at a symbolic address: one object, every offset in bounds */
static Val symload(State &s, Val &pv, Type *t, u64 align){
	if( !pv.sym() ) return load(s, pv.c, t);
	if( !(t->isIntegerTy() || t->isPointerTy()) ) { u64 a = conc(s, pv); return load(s, a, t); }
	u64 const c = evalv(s, *pv.e), n = DL->getTypeStoreSize(t);
	ObjP *p = c<4096? nullptr : find(s, c);
	if( !p || (*p)->freed || (*p)->size<n || c-(*p)->base>(*p)->size-n ) {
		/* not a valid access under this model: pin the address (reports), others follow */
		u64 a = conc(s, pv); return load(s, a, t);
	}
	u64 const base=(*p)->base, size=(*p)->size;
	z3::expr in = z3::ule(*pv.e - Z.bv_val((uint64_t)base,64), Z.bv_val((uint64_t)(size-n),64)), out = !in;
	ModelP m;
	if( check(s, &out, &m) ) { auto o=clone(s); add(*o, out); o->model=m; work.push_back(std::move(o)); add(s, in); }
	if( size>2048 ) { u64 a = conc(s, pv); return load(s, a, t); }
	/* feasible offsets: narrow the range first */
	std::vector<u64> offs;
	u64 const step = align? align : 1;
	for( u64 o=(step-base%step)%step; o+n<=size; o+=step ) offs.push_back(o);
	if( offs.size()>24 ) {
		/* ask for the bounds by bisection */
		auto can = [&](z3::expr const &q){ return check(s, &q, nullptr); };
		u64 lo=0, hi=(c-base);
		while( lo<hi ) { u64 mid=(lo+hi)/2; if( can(z3::ule(*pv.e-Z.bv_val((uint64_t)base,64), Z.bv_val((uint64_t)mid,64))) ) hi=mid; else lo=mid+1; }
		u64 const L=lo; lo=c-base; hi=size-n;
		while( lo<hi ) { u64 mid=(lo+hi+1)/2; if( can(z3::uge(*pv.e-Z.bv_val((uint64_t)base,64), Z.bv_val((uint64_t)mid,64))) ) lo=mid; else hi=mid-1; }
		std::vector<u64> k; for( u64 o : offs ) if( o>=L && o<=lo ) k.push_back(o); offs=k;
	}
	/* misaligned addresses (relative to the access) are followed one by one */
	if( step>1 ) {
		z3::expr al = z3::urem(*pv.e, Z.bv_val((uint64_t)step,64))==Z.bv_val(0,64), nal = !al;
		if( check(s, &nal, &m) ) { u64 a = conc(s, pv); return load(s, a, t); }
	}
	n_reads++;
	Val r; bool first = true;
	for( u64 o : offs ) {
		Val v = load(s, base+o, t);
		if( first ) { r = v; first = false; }
		else r = mke(z3::ite(*pv.e==Z.bv_val((uint64_t)(base+o),64), ex(v), ex(r)));
	}
	return r;
}

/* ---- functions and constants ---- */
static FInfo *info(Function *f){
	auto &p = finfo[f];
	if( !p ) {
		p = std::make_unique<FInfo>(); p->f = f;
		for( auto &a : f->args() ) p->slot[&a] = p->n++;
		for( auto &b : *f ) for( auto &i : b ) if( !i.getType()->isVoidTy() ) p->slot[&i] = p->n++;
	}
	return p.get();
}
static u64 fptr(Function *f){
	auto &g = gaddr[f];
	if( !g ) { g = 0x8000 + 16*faddr.size(); if( g>=0x40000 ) unsup("too many functions"); faddr[g] = f; }
	return g;
}
static Val zero(Type *t){
	if( t->isIntegerTy() ) return mk(t->getIntegerBitWidth(), 0);
	if( t->isPointerTy() || t->isDoubleTy() ) return mk(64, 0);
	if( t->isFloatTy() ) return mk(32, 0);
	if( t->isVectorTy() ) return mk((uint32_t)t->getPrimitiveSizeInBits().getFixedValue(), 0);
	if( t->isX86_FP80Ty() ) return mkld(0);
	Val v; v.k=Val::AGG; v.agg=std::make_shared<std::vector<Val>>();
	if( auto *st=dyn_cast<StructType>(t) ) { for( auto *e : st->elements() ) v.agg->push_back(zero(e)); return v; }
	if( auto *at=dyn_cast<ArrayType>(t) ) { for( u64 i=0;i<at->getNumElements();i++ ) v.agg->push_back(zero(at->getElementType())); return v; }
	unsup("zero of type");
}
static long double fpld(APFloat const &f){ APInt b = f.bitcastToAPInt(); uint8_t raw[16]={0}; u64 lo=b.getRawData()[0], hi=b.getRawData()[1]; memcpy(raw,&lo,8); memcpy(raw+8,&hi,2); long double d; memcpy(&d, raw, 16); return d; }
static Val constant(Constant const *c);
static Val gepval(GEPOperator const *g, std::function<Val(Value const*)> get){
	Val p = get(g->getPointerOperand());
	u64 off = 0; std::shared_ptr<z3::expr> se;
	for( auto it=gep_type_begin(g), e=gep_type_end(g); it!=e; ++it ) {
		Val i = get(it.getOperand());
		if( StructType *st = it.getStructTypeOrNull() ) off += DL->getStructLayout(st)->getElementOffset((unsigned)i.c);
		else {
			u64 const es = DL->getTypeAllocSize(it.getIndexedType());
			if( !i.sym() ) off += (u64)sx64(i.c, i.w)*es;
			else {
				z3::expr x = i.w<64? z3::sext(*i.e, 64-i.w) : *i.e;
				if( es!=1 ) x = x*Z.bv_val((uint64_t)es,64);
				se = std::make_shared<z3::expr>(se? *se+x : x);
			}
		}
	}
	if( !p.sym() && !se ) return mk(64, p.c+off);
	z3::expr r = ex(p);
	if( off ) r = r + Z.bv_val((uint64_t)off,64);
	if( se ) r = r + *se;
	return mke(r);
}
static Val binop(State *s, unsigned op, Val const &a, Val const &b);
static Val castop(State *s, unsigned op, Val v, Type *from, Type *to);
static Val icmp(CmpInst::Predicate p, Val const &a, Val const &b);
static Val constant(Constant const *c){
	if( auto *i=dyn_cast<ConstantInt>(c) ) { if( i->getBitWidth()>64 ) unsup("wide constant"); return mk(i->getBitWidth(), i->getZExtValue()); }
	if( auto *f=dyn_cast<ConstantFP>(c) ) {
		if( f->getType()->isX86_FP80Ty() ) return mkld(fpld(f->getValueAPF()));
		return mk(f->getType()->isFloatTy()? 32 : 64, f->getValueAPF().bitcastToAPInt().getZExtValue());
	}
	if( isa<ConstantPointerNull>(c) ) return mk(64, 0);
	if( isa<UndefValue>(c) ) return zero(c->getType());
	if( isa<ConstantAggregateZero>(c) ) return zero(c->getType());
	if( auto *f=dyn_cast<Function>(c) ) return mk(64, fptr(const_cast<Function*>(f)));
	if( auto *g=dyn_cast<GlobalValue>(c) ) { auto i=gaddr.find(g); if( i==gaddr.end() ) unsup("global " + g->getName().str()); return mk(64, i->second); }
	if( auto *d=dyn_cast<ConstantDataVector>(c) ) { u64 r=0; uint32_t n=0; for( unsigned i=0;i<d->getNumElements();i++ ) { Val e=constant(d->getElementAsConstant(i)); if( n+e.w>64 ) unsup("wide vector"); r |= e.c<<n; n += e.w; } return mk(n, r); }
	if( auto *d=dyn_cast<ConstantDataSequential>(c) ) { Val v; v.k=Val::AGG; v.agg=std::make_shared<std::vector<Val>>(); for( unsigned i=0;i<d->getNumElements();i++ ) v.agg->push_back(constant(d->getElementAsConstant(i))); return v; }
	if( isa<ConstantArray>(c) || isa<ConstantStruct>(c) ) { Val v; v.k=Val::AGG; v.agg=std::make_shared<std::vector<Val>>(); for( unsigned i=0;i<c->getNumOperands();i++ ) v.agg->push_back(constant(cast<Constant>(c->getOperand(i)))); return v; }
	if( auto *e=dyn_cast<ConstantExpr>(c) ) {
		if( auto *g=dyn_cast<GEPOperator>(e) ) return gepval(g, [](Value const *v){ return constant(cast<Constant>(v)); });
		if( e->isCast() ) return castop(nullptr, e->getOpcode(), constant(e->getOperand(0)), e->getOperand(0)->getType(), e->getType());
		if( e->getOpcode()==Instruction::ICmp ) return icmp((CmpInst::Predicate)e->getPredicate(), constant(e->getOperand(0)), constant(e->getOperand(1)));
		return binop(nullptr, e->getOpcode(), constant(e->getOperand(0)), constant(e->getOperand(1)));
	}
	unsup("constant");
}
static double asd(Val const &v){ double d; if( v.w==32 ) { float f; uint32_t u=(uint32_t)v.c; memcpy(&f,&u,4); return f; } memcpy(&d,&v.c,8); return d; }
static Val fromd(double d, uint32_t w){ u64 c=0; if( w==32 ) { float f=(float)d; memcpy(&c,&f,4); } else memcpy(&c,&d,8); return mk(w,c); }
static long double asld(Val const &v){ return v.k==Val::LD? ldof(v) : (long double)asd(v); }
static Val fromld(long double d, uint32_t w){ return w==80? mkld(d) : fromd((double)d, w); }
/* Floating-point operations on values not known are left uninterpreted: one opaque value per operation and operands,
 * up to the laws that hold for every rounding (x+y=y+x, x*y=y*x, x-y=x+(-y), -(-x)=x). */
static std::map<std::string,unsigned> fterm_id;
static std::unordered_map<unsigned,Val> fneg_of;   /* id of a negated term -> the term */
static std::string fkey(Val const &v){
	char b[48];
	if( !v.sym() ) { snprintf(b, sizeof b, "%u:%x.%" PRIx64, v.w, (unsigned)v.hi, v.c); return b; }
	static std::vector<z3::expr> keep; keep.push_back(*v.e);
	snprintf(b, sizeof b, "%u#%u", v.w, Z3_get_ast_id(Z, *v.e)); return b;
}
static Val fterm(std::string op, uint32_t w, std::vector<Val> a){
	if( op=="fsub" ) { op = "fadd"; a[1] = a[1].sym()? fterm("fneg", w, {a[1]}) : fromld(-asld(a[1]), w); }
	if( op=="fneg" && a[0].sym() ) { auto i = fneg_of.find(Z3_get_ast_id(Z, *a[0].e)); if( i!=fneg_of.end() ) return i->second; }
	std::vector<std::string> k;
	for( auto const &v : a ) k.push_back(fkey(v));
	if( op=="fadd" || op=="fmul" ) std::sort(k.begin(), k.end());
	std::string key = op + std::to_string(w);
	for( auto const &q : k ) key += "," + q;
	auto i = fterm_id.insert({key, (unsigned)fterm_id.size()}).first;
	uint32_t const vw = w>64? 64 : w;
	Val r; r.k = w==80? Val::LD : Val::INT; r.w = w; r.e = std::make_shared<z3::expr>(var("f" + std::to_string(vw) + "_" + std::to_string(i->second), vw));
	if( op=="fneg" && a[0].sym() ) fneg_of.insert({Z3_get_ast_id(Z, *r.e), a[0]});
	return r;
}
static char const *fname(unsigned op){ return op==Instruction::FAdd? "fadd" : op==Instruction::FSub? "fsub" : op==Instruction::FMul? "fmul" : op==Instruction::FDiv? "fdiv" : "frem"; }
static Val binop(State *s, unsigned op, Val const &a, Val const &b){
	(void)s;
	switch( op ) {
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		if( a.sym() || b.sym() ) return fterm(fname(op), a.w, {a, b});
		if( a.k==Val::LD ) { long double x=ldof(a), y=ldof(b); return mkld(op==Instruction::FAdd? x+y : op==Instruction::FSub? x-y : op==Instruction::FMul? x*y : op==Instruction::FDiv? x/y : fmodl(x,y)); }
		if( a.w==32 ) { float x=(float)asd(a), y=(float)asd(b); return fromd(op==Instruction::FAdd? x+y : op==Instruction::FSub? x-y : op==Instruction::FMul? x*y : op==Instruction::FDiv? x/y : fmodf(x,y), 32); }
		double x=asd(a), y=asd(b); return fromd(op==Instruction::FAdd? x+y : op==Instruction::FSub? x-y : op==Instruction::FMul? x*y : op==Instruction::FDiv? x/y : fmod(x,y), 64);
	}
	default: break;
	}
	uint32_t const w = a.w;
	if( !a.sym() && !b.sym() ) {
		u64 const x=a.c, y=b.c; int64_t const sx=sx64(x,w), sy=sx64(y,w);
		switch( op ) {
		case Instruction::Add: return mk(w,x+y);
		case Instruction::Sub: return mk(w,x-y);
		case Instruction::Mul: return mk(w,x*y);
		case Instruction::UDiv: return mk(w,x/y);
		case Instruction::URem: return mk(w,x%y);
		case Instruction::SDiv: return mk(w, sy==-1? 0-x : (u64)(sx/sy));
		case Instruction::SRem: return mk(w, sy==-1? 0 : (u64)(sx%sy));
		case Instruction::Shl: return mk(w, y>=w? 0 : x<<y);
		case Instruction::LShr: return mk(w, y>=w? 0 : x>>y);
		case Instruction::AShr: return mk(w, y>=w? 0 : (u64)(sx>>y));
		case Instruction::And: return mk(w,x&y);
		case Instruction::Or: return mk(w,x|y);
		case Instruction::Xor: return mk(w,x^y);
		default: unsup("operator");
		}
	}
	z3::expr x=ex(a), y=ex(b);
	switch( op ) {
	case Instruction::Add: return mke(x+y);
	case Instruction::Sub: return mke(x-y);
	case Instruction::Mul: return mke(x*y);
	case Instruction::UDiv: return mke(z3::udiv(x,y));
	case Instruction::URem: return mke(z3::urem(x,y));
	case Instruction::SDiv: return mke(x/y);
	case Instruction::SRem: return mke(z3::srem(x,y));
	case Instruction::Shl: return mke(z3::shl(x,y));
	case Instruction::LShr: return mke(z3::lshr(x,y));
	case Instruction::AShr: return mke(z3::ashr(x,y));
	case Instruction::And: return mke(x&y);
	case Instruction::Or: return mke(x|y);
	case Instruction::Xor: return mke(x^y);
	default: unsup("operator");
	}
}
static Val icmp(CmpInst::Predicate p, Val const &a, Val const &b){
	if( a.k!=Val::INT || b.k!=Val::INT ) unsup("comparison");
	if( !a.sym() && !b.sym() ) {
		u64 x=a.c, y=b.c; int64_t sx=sx64(x,a.w), sy=sx64(y,b.w); bool r;
		switch( p ) {
		case CmpInst::ICMP_EQ: r=x==y; break; case CmpInst::ICMP_NE: r=x!=y; break;
		case CmpInst::ICMP_UGT: r=x>y; break; case CmpInst::ICMP_UGE: r=x>=y; break;
		case CmpInst::ICMP_ULT: r=x<y; break; case CmpInst::ICMP_ULE: r=x<=y; break;
		case CmpInst::ICMP_SGT: r=sx>sy; break; case CmpInst::ICMP_SGE: r=sx>=sy; break;
		case CmpInst::ICMP_SLT: r=sx<sy; break; case CmpInst::ICMP_SLE: r=sx<=sy; break;
		default: unsup("predicate");
		}
		return mk(1,r);
	}
	if( a.sym() && b.sym() && (a.e==b.e || z3::eq(*a.e, *b.e)) ) return mk(1, CmpInst::isTrueWhenEqual(p));
	z3::expr x=ex(a), y=ex(b);
	switch( p ) {
	case CmpInst::ICMP_EQ: return mke(b2v(x==y)); case CmpInst::ICMP_NE: return mke(b2v(x!=y));
	case CmpInst::ICMP_UGT: return mke(b2v(z3::ugt(x,y))); case CmpInst::ICMP_UGE: return mke(b2v(z3::uge(x,y)));
	case CmpInst::ICMP_ULT: return mke(b2v(z3::ult(x,y))); case CmpInst::ICMP_ULE: return mke(b2v(z3::ule(x,y)));
	case CmpInst::ICMP_SGT: return mke(b2v(x>y)); case CmpInst::ICMP_SGE: return mke(b2v(x>=y));
	case CmpInst::ICMP_SLT: return mke(b2v(x<y)); case CmpInst::ICMP_SLE: return mke(b2v(x<=y));
	default: unsup("predicate");
	}
}
static uint32_t width(Type *t){ return t->isPointerTy()? 64 : t->isX86_FP80Ty()? 80 : (uint32_t)t->getPrimitiveSizeInBits().getFixedValue(); }
static Val castop(State *s, unsigned op, Val v, Type *from, Type *to){
	(void)from;
	uint32_t const w = width(to);
	switch( op ) {
	case Instruction::Trunc: return v.sym()? mke(v.e->extract(w-1,0)) : mk(w,v.c);
	case Instruction::ZExt: if( w>64 ) unsup("wide integer"); return v.sym()? mke(z3::zext(*v.e,w-v.w)) : mk(w,v.c);
	case Instruction::SExt: if( w>64 ) unsup("wide integer"); return v.sym()? mke(z3::sext(*v.e,w-v.w)) : mk(w,(u64)sx64(v.c,v.w));
	case Instruction::PtrToInt: case Instruction::IntToPtr:
		if( w==v.w ) return v;
		if( w<v.w ) return v.sym()? mke(v.e->extract(w-1,0)) : mk(w,v.c);
		return v.sym()? mke(z3::zext(*v.e,w-v.w)) : mk(w,v.c);
	case Instruction::BitCast: return v;
	case Instruction::SIToFP: if( v.sym() ) conc(*s, v); return fromld((long double)sx64(v.c,v.w), w)   ;
	case Instruction::UIToFP: if( v.sym() ) conc(*s, v); return fromld((long double)v.c, w);
	case Instruction::FPToSI: { if( v.sym() ) return fterm("fptosi", w, {v}); long double d=asld(v); if( !(d>-9223372036854775809.0L && d<9223372036854775808.0L) ) return mk(w, w==64? 1ull<<63 : w==32? 1ull<<31 : 0); return mk(w,(u64)(int64_t)d); }
	case Instruction::FPToUI: { if( v.sym() ) return fterm("fptoui", w, {v}); long double d=asld(v); if( !(d>-1.0L && d<18446744073709551616.0L) ) return mk(w, w==64? 1ull<<63 : 0); return mk(w,(u64)d); }
	case Instruction::FPTrunc: case Instruction::FPExt: if( v.sym() ) return fterm(op==Instruction::FPExt? "fpext" : "fptrunc", w, {v}); return fromld(asld(v), w);
	default: unsup("cast");
	}
}

/* ---- the interpreter ---- */
static Val get(State &s, Value const *v){
	if( auto *c=dyn_cast<Constant>(v) ) {
		static DenseMap<Constant const*,Val> known;
		auto i = known.find(c);
		if( i!=known.end() ) return i->second;
		Val x = constant(c);
		known.insert({c, x});
		return x;
	}
	Frame &f = s.st.back();
	return f.r[f.fi->slot.find(v)->second];
}
static void set(State &s, Value const *v, Val const &x){ Frame &f=s.st.back(); f.r[f.fi->slot.find(v)->second] = x; }
/* concrete value of an operand; remembered in its register */
static u64 getc(State &s, Value const *v){
	Val x = get(s, v);
	if( !x.sym() ) { if( x.k!=Val::INT ) unsup("concrete integer expected"); return x.c; }
	u64 const c = conc(s, x);
	if( !isa<Constant>(v) ) set(s, v, x);
	return c;
}
static void jump(State &s, BasicBlock *to){
	Frame &f = s.st.back();
	f.prev = f.bb; f.bb = to; f.it = to->begin();
	std::vector<std::pair<PHINode*,Val>> vals;
	while( auto *p=dyn_cast<PHINode>(&*f.it) ) { vals.push_back({p, get(s, p->getIncomingValueForBlock(f.prev))}); ++f.it; }
	for( auto &q : vals ) set(s, q.first, q.second);
}
static std::string cstr(State &s, u64 a, size_t max=100000){ std::string r; for( size_t i=0;i<max;i++ ) { char c=(char)cbyte(s, a+i); if( !c ) break; r+=c; } return r; }
static bool leave(State &s, Val const &rv){   /* return from the current function; true: the path is complete */
	Frame &f = s.st.back();
	for( u64 a : f.allocas ) { auto i=s.mem.find(a); if( i!=s.mem.end() ) s.mem.erase(i); }
	CallBase *site = f.site;
	s.st.pop_back();
	if( s.st.empty() ) return true;
	if( !site->getType()->isVoidTy() ) set(s, site, rv);
	++s.st.back().it;
	return false;
}
static void enter(State &s, Function *fn, CallBase *site, std::vector<Val> args){
	if( s.st.size()>4000 ) error(s, "recursion", "recursion without end");
	FInfo *fi = info(fn);
	covered.insert(fn->getName().str());
	Frame nf; nf.fi=fi; nf.bb=&fn->getEntryBlock(); nf.it=nf.bb->begin(); nf.site=site; nf.r.resize(fi->n);
	size_t const np = fn->arg_size();
	if( args.size()<np ) unsup("call with too few arguments");
	for( size_t i=0;i<np;i++ ) {
		if( site && site->isByValArgument((unsigned)i) ) {
			Type *t = site->getParamByValType((unsigned)i); u64 const n = DL->getTypeAllocSize(t);
			u64 const a = alloc(s, n, STACK, "argument", false);
			ObjP &src = access(s, args[i].c, n, false); u64 const so = args[i].c-src->base;
			Obj &d = wr(s.mem[a]);
			for( u64 k=0;k<n;k++ ) { d.b[k]=src->b[so+k]; d.st[k]=src->st[so+k]; if( d.st[k]==2 ) d.sy.insert_or_assign(k, src->sy.at(so+k)); }
			nf.allocas.push_back(a); nf.r[i] = mk(64, a);
		} else nf.r[i] = args[i];
	}
	if( fn->isVarArg() ) {
		std::vector<std::pair<u64,Val>> slots; u64 n=0;
		for( size_t i=np;i<args.size();i++ ) { if( args[i].k==Val::LD ) { n=(n+15)/16*16; slots.push_back({n,args[i]}); n+=16; } else { slots.push_back({n,args[i]}); n+=8; } }
		u64 const a = alloc(s, n? n : 1, STACK, "variadic arguments", false);
		for( auto &q : slots ) { Val v=q.second; if( v.k==Val::INT && v.w<64 ) v = v.sym()? mke(z3::zext(*v.e,64-v.w)) : mk(64,v.c); store(s, a+q.first, v, nullptr); }
		nf.va = a; nf.allocas.push_back(a);
	}
	s.st.push_back(std::move(nf));
}
static void copymem(State &s, u64 d, u64 a, u64 n, bool move){
	if( n==0 ) return;
	if( !move && d!=a && d<a+n && a<d+n ) error(s, "memory", "memcpy between overlapping ranges");
	{ access(s, a, n, false); }
	ObjP &dp = access(s, d, n, true);
	ObjP sp = access(s, a, n, false);        /* keeps the old object alive when it is the same one */
	u64 const so = a-sp->base;
	Obj &o = wr(dp); u64 const off = d-o.base;
	std::vector<uint8_t> b(sp->b.begin()+so, sp->b.begin()+so+n), st(sp->st.begin()+so, sp->st.begin()+so+n);
	std::vector<std::pair<u64,SB>> sy;
	for( u64 i=0;i<n;i++ ) if( st[i]==2 ) sy.push_back({i, sp->sy.at(so+i)});
	for( u64 i=0;i<n;i++ ) { if( o.st[off+i]==2 ) o.sy.erase(off+i); o.b[off+i]=b[i]; o.st[off+i]=st[i]; }
	for( auto &q : sy ) o.sy.insert_or_assign(off+q.first, q.second);
}
static void setmem(State &s, u64 d, Val const &c, u64 n){
	if( n==0 ) return;
	ObjP &p = access(s, d, n, true); Obj &o = wr(p); u64 const off = d-o.base;
	for( u64 i=0;i<n;i++ ) {
		o.sy.erase(off+i);
		if( c.sym() ) { o.st[off+i]=2; o.sy.insert_or_assign(off+i, SB{0, 8, c.e}); } else { o.st[off+i]=1; o.b[off+i]=(uint8_t)c.c; }
	}
}
static void release(State &s, u64 a){
	if( a==0 ) return;
	auto i = s.mem.find(a);
	if( i==s.mem.end() || i->second->kind!=HEAP ) error(s, "memory", "free of a pointer that is no heap block");
	if( i->second->freed ) error(s, "memory", "double free");
	Obj &o = wr(i->second);
	o.freed = true; o.sy.clear();
}
static void assume(State &s, z3::expr const &c){
	ModelP mf, mt;
	int const k = sides(s, c, mf, mt);
	if( !(k&2) ) { n_infeasible++; throw Kill(); }
	if( k==3 ) add(s, c);
	s.model = mt;
}
static void require(State &s, z3::expr const &c, std::string const &kind, std::string const &msg){
	n_asserts++;
	ModelP mf, mt;
	int const k = sides(s, c, mf, mt);
	if( k&1 ) report(s, kind, msg, mf);
	if( !(k&2) ) throw Kill();
	if( k==3 ) add(s, c);
	s.model = mt;
}
static bool intrinsic(State &s, CallBase *cb, Function *fn);
static bool external(State &s, CallBase *cb, StringRef name, Val &ret){
	auto arg = [&](unsigned i){ return get(s, cb->getArgOperand(i)); };
	auto c = [&](unsigned i){ return getc(s, cb->getArgOperand(i)); };
	auto fl = [&](unsigned i){ Val v=arg(i); if( v.sym() ) { getc(s, cb->getArgOperand(i)); v=arg(i); } return asld(v); };
	uint32_t const rw = cb->getType()->isVoidTy()? 0 : width(cb->getType());
	if( name=="vp_u64" || name=="vp_u8" ) { uint32_t w = name=="vp_u8"? 8 : 64; Val v = mke(fresh(s, w, "i")); s.inputs.push_back(v); ret = v; return true; }
	if( name=="sx_assume" ) { Val v=arg(0); if( !v.sym() ) { if( !v.c ) { n_infeasible++; throw Kill(); } return true; } assume(s, *v.e!=Z.bv_val(0,v.w)); return true; }
	if( name=="sx_assert" ) {
		Val v=arg(0);
		if( !v.sym() ) { n_asserts++; if( !v.c ) error(s, "assertion", cstr(s, c(1))); return true; }
		require(s, *v.e!=Z.bv_val(0,v.w), "assertion", cstr(s, c(1))); return true; }
	if( name=="sx_reach" ) { reach_hit.insert(cstr(s, c(0)) + "@" + where(s).substr(0, where(s).find(" < "))); return true; }
	if( name=="sx_choose" ) {
		/* a fresh input split into its cases: each value on a path of its own, nothing to ask the solver */
		u64 const lo=c(0), hi=c(1);
		if( lo>hi ) { n_infeasible++; throw Kill(); }
		if( hi-lo>4096 ) unsup("choice among too many values");
		if( !s.choice_set && lo<hi ) { for( u64 v=hi; v>lo; v-- ) { auto o=clone(s); o->choice=v; o->choice_set=true; work.push_back(std::move(o)); } }
		u64 const v = s.choice_set? s.choice : lo;
		s.choice_set=false;
		s.inputs.push_back(mk(64,v)); ret = mk(64,v); return true;
	}
	if( name=="sx_pick" ) { ret = mk(rw, c(0)); return true; }
	if( name=="malloc" || name=="calloc" ) { u64 n = c(0); if( name=="calloc" ) n *= c(1); if( n>(1u<<26) ) { ret=mk(64,0); return true; } ret = mk(64, alloc(s, n, HEAP, "heap block of " + std::to_string(n), name=="calloc")); return true; }
	if( name=="realloc" ) {
		u64 const p=c(0), n=c(1);
		if( n>(1u<<26) ) { ret=mk(64,0); return true; }
		if( p ) { auto i=s.mem.find(p); if( i==s.mem.end() || i->second->kind!=HEAP || i->second->freed ) error(s, "memory", "realloc of a pointer that is no live heap block"); }
		u64 const q = alloc(s, n, HEAP, "heap block of " + std::to_string(n), false);
		if( p ) { u64 const o=s.mem[p]->size; copymem(s, q, p, o<n? o : n, false); release(s, p); }
		ret = mk(64, q); return true;
	}
	if( name=="free" ) { release(s, c(0)); return true; }
	if( name=="memcpy" || name=="memmove" ) { u64 d=c(0), a=c(1), n=c(2); copymem(s, d, a, n, name=="memmove"); ret=mk(64,d); return true; }
	if( name=="memset" ) { u64 d=c(0), n=c(2); Val v=arg(1); setmem(s, d, castop(&s, Instruction::Trunc, v, nullptr, Type::getInt8Ty(M->getContext())), n); ret=mk(64,d); return true; }
	if( name=="abort" || name=="__assert_fail" || name=="exit" ) error(s, "abort", name.str() + " called");
	if( name=="strtod" || name=="strtold" || name=="strtof" ) {
		u64 p=c(0), e=c(1); std::string t = cstr(s, p); char *q; long double d; 
		if( name=="strtold" ) d = strtold(t.c_str(), &q); else if( name=="strtod" ) d = strtod(t.c_str(), &q); else d = strtof(t.c_str(), &q);
		if( e ) storeint(s, e, mk(64, p + (u64)(q-t.c_str())));
		ret = fromld(d, rw); return true;
	}
	if( name=="sx_float" ) { ret = fterm("in" + std::to_string(c(0)), 80, {}); return true; }
	if( name=="sx_feq" ) {
		Val a=arg(0), b=arg(1);
		if( !a.sym() && !b.sym() ) { long double x=ldof(a), y=ldof(b); ret = mk(32, x==y || (std::isnan(x) && std::isnan(y))); return true; }
		if( a.sym() && b.sym() && z3::eq(*a.e, *b.e) ) ret = mk(32, 1);
		else ret = mke(z3::zext(b2v(a.sym() && b.sym()? *a.e==*b.e : var("ne_" + fkey(a) + fkey(b), 8)==Z.bv_val(1,8)), 31));
		return true;
	}
	struct F1 { char const *n; long double (*f)(long double); }; static F1 const f1[] = {{"fabs",fabsl},{"sqrt",sqrtl},{"floor",floorl},{"ceil",ceill},{"round",roundl},{"trunc",truncl},{"log10",log10l},{"log2",log2l},{"log",logl},{"exp",expl},{"cos",cosl},{"sin",sinl},{"tan",tanl},{"acos",acosl},{"asin",asinl},{"atan",atanl}};
	auto opq = [&](unsigned n){ std::vector<Val> a; bool sy=false; for( unsigned i=0;i<n;i++ ) { a.push_back(arg(i)); sy = sy || a[i].sym(); } if( sy ) ret = fterm(name.str(), rw, a); return sy; };
	for( auto const &q : f1 ) { std::string n=q.n; if( (name==n || name==n+"f" || name==n+"l") && opq(1) ) return true; }
	if( (name=="pow" || name=="powl" || name=="powf" || name=="fmod" || name=="fmodl") && opq(2) ) return true;
	for( auto const &q : f1 ) { std::string n=q.n; if( name==n || name==n+"f" || name==n+"l" ) { ret = fromld(q.f(fl(0)), rw); return true; } }
	if( name=="pow" || name=="powl" || name=="powf" ) { ret = fromld(name=="pow"? (long double)pow((double)fl(0),(double)fl(1)) : powl(fl(0),fl(1)), rw); return true; }
	if( name=="fmod" || name=="fmodl" ) { ret = fromld(fmodl(fl(0),fl(1)), rw); return true; }
	if( name=="puts" || name=="printf" || name=="putchar" || name=="fprintf" || name=="fputs" || name=="fflush" || name=="putc" || name=="fputc" || name=="fwrite" ) { if( rw ) ret = mk(rw, 0); return true; }
	return false;
}
static bool intrinsic(State &s, CallBase *cb, Function *fn){
	auto arg = [&](unsigned i){ return get(s, cb->getArgOperand(i)); };
	auto c = [&](unsigned i){ return getc(s, cb->getArgOperand(i)); };
	Val a, b;
	switch( fn->getIntrinsicID() ) {
	case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::vaend:
	case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: return true;
	case Intrinsic::stacksave: set(s, cb, mk(64,0)); return true;
	case Intrinsic::stackrestore: return true;
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { u64 d=c(0), q=c(1), n=c(2); copymem(s, d, q, n, d==q); return true; }
	case Intrinsic::memmove: { u64 d=c(0), q=c(1), n=c(2); copymem(s, d, q, n, true); return true; }
	case Intrinsic::memset: { u64 d=c(0), n=c(2); setmem(s, d, arg(1), n); return true; }
	case Intrinsic::trap: case Intrinsic::debugtrap: error(s, "ub", "trap"); 
	case Intrinsic::ubsantrap: error(s, "ub", "undefined behaviour " + std::to_string(arg(0).c));
	case Intrinsic::expect: set(s, cb, arg(0)); return true;
	case Intrinsic::objectsize: set(s, cb, mk(width(cb->getType()), ~0ull)); return true;
	case Intrinsic::is_constant: set(s, cb, mk(1,0)); return true;
	case Intrinsic::fabs: { Val v=arg(0); if( v.sym() ) { set(s, cb, fterm("fabs", width(cb->getType()), {v})); return true; } set(s, cb, fromld(fabsl(asld(v)), width(cb->getType()))); return true; }
	case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: {
		auto const id = fn->getIntrinsicID(); Val v=arg(0); uint32_t const w=width(cb->getType());
		char const *n = id==Intrinsic::floor? "floor" : id==Intrinsic::ceil? "ceil" : id==Intrinsic::round? "round" : "trunc";
		if( v.sym() ) { set(s, cb, fterm(n, w, {v})); return true; }
		long double d=asld(v); d = id==Intrinsic::floor? floorl(d) : id==Intrinsic::ceil? ceill(d) : id==Intrinsic::round? roundl(d) : truncl(d);
		set(s, cb, fromld(d, w)); return true; }
	case Intrinsic::fmuladd: { if( arg(0).sym() || arg(1).sym() || arg(2).sym() ) { uint32_t const w=width(cb->getType()); set(s, cb, fterm("fadd", w, {fterm("fmul", w, {arg(0), arg(1)}), arg(2)})); return true; } long double r = asld(arg(0))*asld(arg(1))+asld(arg(2)); set(s, cb, fromld(r, width(cb->getType()))); return true; }
	case Intrinsic::umin: a=arg(0); b=arg(1); if( !a.sym() && !b.sym() ) set(s, cb, mk(a.w, a.c<b.c? a.c : b.c)); else set(s, cb, mke(z3::ite(z3::ult(ex(a),ex(b)),ex(a),ex(b)))); return true;
	case Intrinsic::umax: a=arg(0); b=arg(1); if( !a.sym() && !b.sym() ) set(s, cb, mk(a.w, a.c>b.c? a.c : b.c)); else set(s, cb, mke(z3::ite(z3::ugt(ex(a),ex(b)),ex(a),ex(b)))); return true;
	case Intrinsic::smin: a=arg(0); b=arg(1); set(s, cb, mke(z3::ite(ex(a)<ex(b),ex(a),ex(b)))); return true;
	case Intrinsic::smax: a=arg(0); b=arg(1); set(s, cb, mke(z3::ite(ex(a)>ex(b),ex(a),ex(b)))); return true;
	case Intrinsic::abs: a=arg(0); set(s, cb, mke(z3::ite(ex(a)<Z.bv_val(0,a.w),-ex(a),ex(a)))); return true;
	case Intrinsic::fshl: case Intrinsic::fshr: {
		a=arg(0); b=arg(1); Val n=arg(2); uint32_t const w=a.w; bool const l = fn->getIntrinsicID()==Intrinsic::fshl;
		if( w>32 && (a.sym()||b.sym()||n.sym()) ) { z3::expr x=z3::concat(ex(a),ex(b)), k=z3::zext(z3::urem(ex(n),Z.bv_val(w,w)),w); set(s, cb, mke(l? z3::shl(x,k).extract(2*w-1,w) : z3::lshr(x,k).extract(w-1,0))); return true; }
		z3::expr x=z3::concat(ex(a),ex(b)), k=z3::zext(z3::urem(ex(n),Z.bv_val(w,w)),w);
		set(s, cb, mke(l? z3::shl(x,k).extract(2*w-1,w) : z3::lshr(x,k).extract(w-1,0))); return true; }
	case Intrinsic::ptrmask: { a=arg(0); b=arg(1); if( a.sym() || b.sym() ) unsup("mask of an unknown pointer"); set(s, cb, mk(a.w, a.c & b.c)); return true; }
	case Intrinsic::ctpop: { a=arg(0); z3::expr r=Z.bv_val(0,a.w); for( uint32_t i=0;i<a.w;i++ ) r = r + (a.w>1? z3::zext(ex(a).extract(i,i),a.w-1) : ex(a)); set(s, cb, mke(r)); return true; }
	case Intrinsic::ctlz: case Intrinsic::cttz: {
		a=arg(0); bool const lead = fn->getIntrinsicID()==Intrinsic::ctlz; uint32_t const w=a.w;
		if( !a.sym() ) { uint32_t n=0; while( n<w && !(a.c >> (lead? w-1-n : n) & 1) ) n++; set(s, cb, mk(w,n)); return true; }
		z3::expr r=Z.bv_val(w,w), x=ex(a);
		for( uint32_t i=w;i-->0; ) r = z3::ite(x.extract(lead? w-1-i : i, lead? w-1-i : i)==Z.bv_val(1,1), Z.bv_val(i,w), r);
		set(s, cb, mke(r)); return true; }
	case Intrinsic::bswap: { z3::expr_vector ev(Z); a=arg(0); for( uint32_t i=0;i<a.w/8;i++ ) ev.push_back(ex(a).extract(8*i+7,8*i)); set(s, cb, mke(z3::concat(ev))); return true; }
	case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
		a=arg(0); b=arg(1); auto id=fn->getIntrinsicID(); uint32_t const w=a.w;
		bool const sg = id==Intrinsic::sadd_with_overflow || id==Intrinsic::ssub_with_overflow || id==Intrinsic::smul_with_overflow;
		bool const mul = id==Intrinsic::smul_with_overflow || id==Intrinsic::umul_with_overflow, sub = id==Intrinsic::ssub_with_overflow || id==Intrinsic::usub_with_overflow;
		Val r, o;
		if( !a.sym() && !b.sym() ) {
			__int128 x = sg? (__int128)sx64(a.c,w) : (__int128)a.c, y = sg? (__int128)sx64(b.c,w) : (__int128)b.c;
			unsigned __int128 um = mul && !sg? (unsigned __int128)a.c*b.c : 0;
			__int128 z = mul? (sg? x*y : (__int128)um) : sub? x-y : x+y;
			r = mk(w,(u64)z);
			if( sg ) o = mk(1, z != (__int128)sx64(r.c,w)); else if( mul ) o = mk(1, (um>>w)!=0); else o = mk(1, z<0 || (z>>w)!=0);
		} else {
			uint32_t const k = mul? w : 1;
			z3::expr x = sg? z3::sext(ex(a),k) : z3::zext(ex(a),k), y = sg? z3::sext(ex(b),k) : z3::zext(ex(b),k);
			z3::expr z = mul? x*y : sub? x-y : x+y, lo = z.extract(w-1,0);
			r = mke(lo); o = mke(b2v(z != (sg? z3::sext(lo,k) : z3::zext(lo,k))));
		}
		Val v; v.k=Val::AGG; v.agg=std::make_shared<std::vector<Val>>(); v.agg->push_back(r); v.agg->push_back(o); set(s, cb, v); return true; }
	case Intrinsic::vastart: {
		u64 p=c(0); storeint(s, p, mk(32,48)); storeint(s, p+4, mk(32,304)); storeint(s, p+8, mk(64,s.st.back().va)); storeint(s, p+16, mk(64,0)); return true; }
	case Intrinsic::vacopy: { u64 d=c(0), q=c(1); copymem(s, d, q, 24, true); return true; }
	default: unsup("intrinsic " + fn->getName().str());
	}
}
/* one instruction; true: path complete */
static bool step(State &s){
	Frame &f = s.st.back();
	Instruction &I = *f.it;
	n_instr++;
	if( ++s.steps>max_steps ) error(s, "steps", "no end within the step limit");
	switch( I.getOpcode() ) {
	case Instruction::Alloca: {
		auto &A = cast<AllocaInst>(I);
		u64 n = DL->getTypeAllocSize(A.getAllocatedType());
		if( A.isArrayAllocation() ) { u64 k = getc(s, A.getArraySize()); n *= k; if( n>(1u<<24) ) error(s, "memory", "stack allocation too large"); }
		u64 const a = alloc(s, n, STACK, "variable " + A.getName().str(), false, A.getAlign().value());
		s.st.back().allocas.push_back(a); set(s, &I, mk(64,a)); break; }
	case Instruction::Load: {
		auto &L = cast<LoadInst>(I);
		Val p = get(s, L.getPointerOperand());
		Val v;
		if( !p.sym() ) v = load(s, p.c, L.getType());
		else v = symload(s, p, L.getType(), L.getAlign().value());
		set(s, &I, v); break; }
	case Instruction::Store: {
		auto &T = cast<StoreInst>(I);
		u64 const a = getc(s, T.getPointerOperand());
		store(s, a, get(s, T.getValueOperand()), T.getValueOperand()->getType()); break; }
	case Instruction::GetElementPtr: set(s, &I, gepval(cast<GEPOperator>(&I), [&](Value const *v){ return get(s, v); })); break;
	case Instruction::ICmp: set(s, &I, icmp(cast<ICmpInst>(I).getPredicate(), get(s, I.getOperand(0)), get(s, I.getOperand(1)))); break;
	case Instruction::FCmp: {
		Val a=get(s,I.getOperand(0)), b=get(s,I.getOperand(1));
		if( a.sym() || b.sym() ) { set(s, &I, fterm("fcmp" + std::to_string(cast<FCmpInst>(I).getPredicate()), 1, {a, b})); break; }
		long double x=asld(a), y=asld(b); bool const u = std::isnan(x)||std::isnan(y); bool r;
		switch( cast<FCmpInst>(I).getPredicate() ) {
		case CmpInst::FCMP_OEQ: r=!u&&x==y; break; case CmpInst::FCMP_UEQ: r=u||x==y; break; case CmpInst::FCMP_ONE: r=!u&&x!=y; break; case CmpInst::FCMP_UNE: r=u||x!=y; break;
		case CmpInst::FCMP_OGT: r=!u&&x>y; break; case CmpInst::FCMP_OGE: r=!u&&x>=y; break; case CmpInst::FCMP_OLT: r=!u&&x<y; break; case CmpInst::FCMP_OLE: r=!u&&x<=y; break;
		case CmpInst::FCMP_UGT: r=u||x>y; break; case CmpInst::FCMP_UGE: r=u||x>=y; break; case CmpInst::FCMP_ULT: r=u||x<y; break; case CmpInst::FCMP_ULE: r=u||x<=y; break;
		case CmpInst::FCMP_ORD: r=!u; break; case CmpInst::FCMP_UNO: r=u; break; case CmpInst::FCMP_TRUE: r=true; break; default: r=false; break;
		}
		set(s, &I, mk(1,r)); break; }
	case Instruction::FNeg: { Val a=get(s,I.getOperand(0)); if( a.sym() ) { set(s, &I, fterm("fneg", width(I.getType()), {a})); break; } set(s, &I, fromld(-asld(a), width(I.getType()))); break; }
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		Val a=get(s,I.getOperand(0)), b=get(s,I.getOperand(1));
		if( b.sym() ) require(s, *b.e!=Z.bv_val(0,b.w), "ub", "division by zero"); else if( b.c==0 ) error(s, "ub", "division by zero");
		set(s, &I, binop(&s, I.getOpcode(), a, b)); break; }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
		set(s, &I, binop(&s, I.getOpcode(), get(s,I.getOperand(0)), get(s,I.getOperand(1)))); break;
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
	case Instruction::And: case Instruction::Or: case Instruction::Xor: {
		Val r = binop(&s, I.getOpcode(), get(s,I.getOperand(0)), get(s,I.getOperand(1)));
		if( r.sym() && I.getOpcode()==Instruction::And && r.w>=32 ) {
			/* rounding to an alignment often leaves one value only */
			auto *k = dyn_cast<ConstantInt>(I.getOperand(1));
			Val m = get(s, I.getOperand(1));
			if( !m.sym() && (m.c & 1)==0 && (m.c>>(m.w-1))&1 ) {
				u64 const c = evalv(s, *r.e); z3::expr ne = simp(*r.e!=Z.bv_val((uint64_t)c, r.w));
				if( !check(s, &ne, nullptr) ) r = mk(r.w, c);
			}
		}
		set(s, &I, r); break; }
	case Instruction::Select: {
		Val c=get(s,I.getOperand(0)), a=get(s,I.getOperand(1)), b=get(s,I.getOperand(2));
		if( !c.sym() ) { set(s, &I, c.c? a : b); break; }
		if( a.k==Val::INT && b.k==Val::INT && !I.getType()->isPointerTy() && !I.getType()->isFloatingPointTy() ) { set(s, &I, mke(z3::ite(tru(c), ex(a), ex(b)))); break; }
		u64 k = getc(s, I.getOperand(0)); set(s, &I, k? a : b); break; }
	case Instruction::ExtractValue: { auto &E=cast<ExtractValueInst>(I); Val v=get(s,E.getAggregateOperand()); for( unsigned i : E.indices() ) { Val t=(*v.agg)[i]; v=t; } set(s, &I, v); break; }
	case Instruction::InsertValue: {
		auto &E=cast<InsertValueInst>(I); Val v=get(s,E.getAggregateOperand());
		if( E.getNumIndices()!=1 ) unsup("nested insertvalue");
		v.agg=std::make_shared<std::vector<Val>>(*v.agg); (*v.agg)[E.getIndices()[0]]=get(s,E.getInsertedValueOperand()); set(s, &I, v); break; }
	case Instruction::Freeze: set(s, &I, get(s, I.getOperand(0))); break;
	case Instruction::Br: {
		auto &B = cast<BranchInst>(I);
		if( B.isUnconditional() ) { jump(s, B.getSuccessor(0)); return false; }
		Val c = get(s, B.getCondition());
		if( !c.sym() ) { jump(s, B.getSuccessor(c.c? 0 : 1)); return false; }
		z3::expr t = simp(tru(c));
		ModelP mf, mt;
		int const k = sides(s, t, mf, mt);
		if( k==3 ) {
			auto o = clone(s); add(*o, !t); o->model=mf; set(*o, B.getCondition(), mk(1,0)); jump(*o, B.getSuccessor(1)); work.push_back(std::move(o));
			add(s, t); s.model=mt;
		}
		if( !isa<Constant>(B.getCondition()) ) set(s, B.getCondition(), mk(1, (k&2)? 1 : 0));
		jump(s, B.getSuccessor((k&2)? 0 : 1)); return false; }
	case Instruction::Switch: {
		auto &W = cast<SwitchInst>(I);
		Val c = get(s, W.getCondition());
		if( !c.sym() ) { BasicBlock *to=W.getDefaultDest(); for( auto &q : W.cases() ) if( q.getCaseValue()->getZExtValue()==c.c ) to=q.getCaseSuccessor(); jump(s, to); return false; }
		/* the case of the current model is followed here, the rest by a clone that executes the switch again */
		u64 const m = evalv(s, *c.e); BasicBlock *to=nullptr; z3::expr cond=Z.bool_val(true);
		for( auto &q : W.cases() ) if( q.getCaseValue()->getZExtValue()==m ) to=q.getCaseSuccessor();
		if( to ) { cond=Z.bool_val(false); for( auto &q : W.cases() ) if( q.getCaseSuccessor()==to ) cond = cond || *c.e==Z.bv_val((uint64_t)q.getCaseValue()->getZExtValue(), c.w); if( W.getDefaultDest()==to ) { z3::expr d=Z.bool_val(true); for( auto &q : W.cases() ) d = d && *c.e!=Z.bv_val((uint64_t)q.getCaseValue()->getZExtValue(), c.w); cond = cond || d; } }
		else { to=W.getDefaultDest(); for( auto &q : W.cases() ) if( q.getCaseSuccessor()!=to ) cond = cond && *c.e!=Z.bv_val((uint64_t)q.getCaseValue()->getZExtValue(), c.w); }
		z3::expr nc = !cond; ModelP mf;
		if( check(s, &nc, &mf) ) { auto o=clone(s); add(*o, nc); o->model=mf; work.push_back(std::move(o)); add(s, cond); }
		jump(s, to); return false; }
	case Instruction::Ret: {
		auto &R = cast<ReturnInst>(I);
		Val v; if( R.getReturnValue() ) v = get(s, R.getReturnValue());
		return leave(s, v); }
	case Instruction::Unreachable: error(s, "ub", "unreachable code reached");
	case Instruction::Call: {
		auto *cb = cast<CallBase>(&I);
		if( cb->isInlineAsm() ) unsup("inline asm");
		Function *fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
		if( !fn ) { u64 a = getc(s, cb->getCalledOperand()); auto i=faddr.find(a); if( i==faddr.end() ) error(s, "memory", "call through a bad function pointer"); fn = i->second; }
		if( fn->isIntrinsic() ) { intrinsic(s, cb, fn); break; }
		if( fn->isDeclaration() || fn->getName()=="vp_u64" ) {
			Val r;
			if( !external(s, cb, fn->getName(), r) ) unsup("external function " + fn->getName().str());
			if( !cb->getType()->isVoidTy() ) set(s, cb, r);
			break;
		}
		std::vector<Val> args; for( unsigned i=0;i<cb->arg_size();i++ ) args.push_back(get(s, cb->getArgOperand(i)));
		enter(s, fn, cb, std::move(args));
		return false; }
	default:
		if( I.isCast() ) {
			Val v = get(s, I.getOperand(0));
			if( v.sym() && (I.getOpcode()==Instruction::SIToFP || I.getOpcode()==Instruction::UIToFP) ) { getc(s, I.getOperand(0)); v = get(s, I.getOperand(0)); }
			set(s, &I, castop(&s, I.getOpcode(), v, I.getOperand(0)->getType(), I.getType())); break;
		}
		unsup(std::string("instruction ") + I.getOpcodeName());
	}
	++s.st.back().it;
	return false;
}
static void initglobal(State &s, u64 a, Constant const *c, Type *t){
	if( isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) ) return;
	if( auto *d=dyn_cast<ConstantDataSequential>(c) ) if( d->getElementType()->isIntegerTy(8) ) { StringRef r=d->getRawDataValues(); Obj &o=*s.mem.at(a - 0).get(); (void)o; }
	store(s, a, constant(c), t);
}
static void reachables(Function *f, std::set<Function*> &seen){
	if( f->isDeclaration() || !seen.insert(f).second ) return;
	for( auto &b : *f ) for( auto &i : b ) if( auto *cb=dyn_cast<CallBase>(&i) ) {
		Function *g = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
		if( !g ) continue;
		if( g->getName()=="sx_reach" ) {
			std::string m="?";
			if( auto *gv=dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()) ) if( gv->hasInitializer() ) if( auto *d=dyn_cast<ConstantDataSequential>(gv->getInitializer()) ) m=d->getAsCString().str();
			std::string l = f->getName().str();
			if( DILocation *d=i.getDebugLoc() ) l += "@" + d->getFilename().str() + ":" + std::to_string(d->getLine());
			reach_all.insert(m + "@" + l);
		}
		reachables(g, seen);
	}
}
static std::string js(std::string const &s){ std::string o="\""; for( char c : s ) { if( c=='"'||c=='\\' ) { o+='\\'; o+=c; } else if( (unsigned char)c<32 ) o+=' '; else o+=c; } return o+"\""; }
int main(int argc, char **argv){
	if( argc<4 ) { fprintf(stderr, "usage: sx FILE.bc ENTRY SECONDS [STEPS]\n"); return 2; }
	t0 = now(); deadline = t0 + atof(argv[3]);
	if( argc>4 ) max_steps = strtoull(argv[4], nullptr, 10);
	LLVMContext ctx; SMDiagnostic d;
	M = parseIRFile(argv[1], d, ctx);
	if( !M ) { fprintf(stderr, "cannot read %s\n", argv[1]); return 2; }
	DataLayout dl = M->getDataLayout(); DL = &dl;
	std::string detail;
	newsolver();
	try {
		auto s = std::make_unique<State>();
		for( auto &g : M->globals() ) {
			u64 const n = DL->getTypeAllocSize(g.getValueType());
			if( g.isDeclaration() && g.getName()!="stderr" && g.getName()!="stdout" && g.getName()!="stdin" ) continue;
			u64 const a = alloc(*s, n, GLOBAL, g.getName().str(), true, g.getAlign()? g.getAlign()->value() : 16);
			gaddr[&g] = a;
		}
		for( auto &g : M->globals() ) if( g.hasInitializer() ) initglobal(*s, gaddr[&g], g.getInitializer(), g.getValueType());
		for( auto &g : M->globals() ) if( gaddr.count(&g) && g.isConstant() ) s->mem[gaddr[&g]]->ro = true;
		Function *f = M->getFunction(argv[2]);
		if( !f || f->isDeclaration() ) { fprintf(stderr, "no function %s\n", argv[2]); return 2; }
		std::set<Function*> seen; reachables(f, seen);
		enter(*s, f, nullptr, {});
		work.push_back(std::move(s));
		u64 tick=0;
		while( !work.empty() ) {
			StateP cur = std::move(work.back()); work.pop_back();
			try {
				for( ;; ) {
					if( (++tick & 1023)==0 && now()>deadline ) { status="timeout"; throw Stop(); }
					if( step(*cur) ) { n_paths++; break; }
				}
			} catch( Kill & ) {}
		}
	} catch( Stop & ) { if( status=="ok" ) status="stopped"; }
	catch( Unsupported &u ) { status="unsupported"; detail=u.what; }
	catch( z3::exception &e ) { status="unsupported"; detail=std::string("z3: ") + e.msg(); }
	std::string o="{";
	auto kv=[&](char const *k, std::string v){ if( o.size()>1 ) o+=", "; o+=js(k)+": "+v; };
	kv("status", js(status)); kv("detail", js(detail));
	kv("paths", std::to_string(n_paths)); kv("infeasible", std::to_string(n_infeasible)); kv("queries", std::to_string(n_queries)); kv("asserts", std::to_string(n_asserts));
	kv("instr", std::to_string(n_instr)); kv("cached", std::to_string(n_cached)); kv("forks", std::to_string(n_forks)); kv("pending", std::to_string(work.size()));
	kv("solver_s", std::to_string(solver_s)); kv("wall_s", std::to_string(now()-t0));
	std::string a="["; for( auto &e : errors ) { if( a.size()>1 ) a+=", "; a+="{\"kind\": "+js(e.kind)+", \"msg\": "+js(e.msg)+", \"loc\": "+js(e.loc)+", \"inputs\": ["; for( size_t i=0;i<e.inputs.size();i++ ) a+=(i?", ":"")+js(e.inputs[i]); a+="]}"; } kv("errors", a+"]");
	auto list=[&](std::set<std::string> const &q){ std::string r="["; for( auto &x : q ) r+=(r.size()>1?", ":"")+js(x); return r+"]"; };
	kv("reach_hit", list(reach_hit)); kv("reach_all", list(reach_all)); kv("functions", list(covered));
	printf("%s}\n", o.c_str());
	fflush(stdout);
	_Exit(0);
}
