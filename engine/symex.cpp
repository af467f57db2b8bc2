// symex: a symbolic executor for textual LLVM IR as emitted by rustc.
//
// usage: symex FILE.ll ENTRY [--max-paths N] [--max-steps N] [--time S]
//              [--query-ms N] [--samples N] [--smt2 DIR] [--cover] [--first]
//
// Input symbols come from calls to the sym_* functions.  Every feasible path
// is followed; branch feasibility and every assertion that does not fold to a
// constant is decided by z3 (bit-vector logic) over ALL values of the symbols.
// Result: one JSON object on stdout.
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <stdexcept>
using std::string; using std::vector; using std::map; using std::set;
typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void die(const string&m){ throw std::runtime_error(m); }
static inline u128 maskw(int w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline u128 trunc(u128 v,int w){ return v & maskw(w); }
static inline i128 sx(u128 v,int w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^s)-s); }

// ------------------------------------------------------------------ symbols
struct Mask { u64 b[4]={0,0,0,0};
  bool get(int i)const{ return b[i>>6]>>(i&63)&1; } void set(int i){ b[i>>6]|=1ull<<(i&63);} void clr(int i){ b[i>>6]&=~(1ull<<(i&63));}
  bool none()const{ return !(b[0]|b[1]|b[2]|b[3]); }
  int count()const{ return __builtin_popcountll(b[0])+__builtin_popcountll(b[1])+__builtin_popcountll(b[2])+__builtin_popcountll(b[3]); }
  int first()const{ for(int i=0;i<4;i++) if(b[i]) return i*64+__builtin_ctzll(b[i]); return -1; }
  Mask operator&(const Mask&o)const{ Mask r; for(int i=0;i<4;i++) r.b[i]=b[i]&o.b[i]; return r; }
  Mask operator|(const Mask&o)const{ Mask r; for(int i=0;i<4;i++) r.b[i]=b[i]|o.b[i]; return r; }
  bool operator==(const Mask&o)const{ return !memcmp(b,o.b,32); }
};
static Mask fullMask(int n){ Mask m; for(int i=0;i<n;i++) m.set(i); return m; }
struct Sym { int id; int w; u64 lo; int n; /* n==0: large */ Z3_ast z=nullptr; };
static vector<Sym> syms; static map<std::tuple<int,int,u64,int>,int> symIntern;
static int internSym(int ord,int w,u64 lo,int n){ auto k=std::make_tuple(ord,w,lo,n); auto it=symIntern.find(k); if(it!=symIntern.end()) return it->second;
  int id=syms.size(); if(id>=256) die("too many symbols"); syms.push_back({id,w,lo,n}); symIntern[k]=id; return id; }

// -------------------------------------------------------------------- exprs
enum EOp:uint8_t { E_CONST,E_SYM,E_TAB, E_ADD,E_SUB,E_MUL,E_UDIV,E_SDIV,E_UREM,E_SREM,E_SHL,E_LSHR,E_ASHR,E_AND,E_OR,E_XOR,
  E_EQ,E_NE,E_ULT,E_ULE,E_SLT,E_SLE, E_ITE,E_ZEXT,E_SEXT,E_EXTRACT,E_CONCAT };
struct Expr { EOp op; uint16_t w; int aux; /*sym, or low bit of extract*/ u128 c; Expr*k[3]; const vector<u64>*tab; u64 h; Mask ids; Z3_ast z; };
struct Val { u128 c; Expr*e; Val():c(0),e(nullptr){} Val(u128 v):c(v),e(nullptr){} Val(u128 v,Expr*x):c(v),e(x){} };
struct KeyEq{ bool operator()(const Expr*a,const Expr*b)const{ return a->op==b->op&&a->w==b->w&&a->aux==b->aux&&a->c==b->c&&a->k[0]==b->k[0]&&a->k[1]==b->k[1]&&a->k[2]==b->k[2]&&(a->tab==b->tab||(a->tab&&b->tab&&*a->tab==*b->tab)); } };
struct KeyH{ size_t operator()(const Expr*a)const{ return a->h; } };
static std::unordered_set<Expr*,KeyH,KeyEq> pool; static u64 nExpr=0;
static u64 mix(u64 a,u64 b){ a^=b+0x9e3779b97f4a7c15ull+(a<<6)+(a>>2); return a*0xff51afd7ed558ccdull; }
static Expr* intern(Expr t){ u64 h=mix(t.op,t.w); h=mix(h,t.aux); h=mix(h,(u64)t.c); h=mix(h,(u64)(t.c>>64)); for(int i=0;i<3;i++) h=mix(h,(u64)t.k[i]>>4); if(t.tab) for(u64 v:*t.tab) h=mix(h,v); t.h=h;
  auto it=pool.find(&t); if(it!=pool.end()) return *it;
  Expr*e=new Expr(t); if(t.tab) e->tab=new vector<u64>(*t.tab);
  e->ids=Mask(); if(e->op==E_SYM||e->op==E_TAB) e->ids.set(e->aux); for(int i=0;i<3;i++) if(e->k[i]) e->ids=e->ids|e->k[i]->ids; e->z=nullptr; pool.insert(e); nExpr++; return e; }
static Expr* mkRaw(EOp op,int w,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr,int aux=0){ Expr t{}; t.op=op;t.w=w;t.aux=aux;t.c=0;t.k[0]=a;t.k[1]=b;t.k[2]=c;t.tab=nullptr; return intern(t); }
static Expr* mkConstE(u128 v,int w){ Expr t{}; t.op=E_CONST;t.w=w;t.aux=0;t.c=trunc(v,w);t.k[0]=t.k[1]=t.k[2]=nullptr;t.tab=nullptr; return intern(t); }
static Expr* toE(const Val&v,int w){ return v.e? v.e : mkConstE(v.c,w); }
static Val fromE(Expr*e){ if(e->op==E_CONST) return Val(e->c); return Val(0,e); }

struct State; static State*cur=nullptr; static const Mask& liveMask(int sym);
static Val mkTab(int sym,int w,vector<u64>&vals){ const Mask&m=liveMask(sym); int f=m.first(); if(f<0) die("empty domain"); u64 v0=vals[f]; bool same=true; int n=vals.size();
  for(int i=0;i<n;i++){ if(!m.get(i)) vals[i]=v0; else if(vals[i]!=v0) same=false; }
  if(same) return Val((u128)v0);
  Expr t{}; t.op=E_TAB;t.w=w;t.aux=sym;t.c=0;t.k[0]=t.k[1]=t.k[2]=nullptr;t.tab=&vals; return Val(0,intern(t)); }
static u128 evalBin(EOp op,int w,u128 a,u128 b){ switch(op){
  case E_ADD:return trunc(a+b,w); case E_SUB:return trunc(a-b,w); case E_MUL:return trunc(a*b,w);
  case E_UDIV: if(!b) die("division by zero in IR"); return a/b; case E_UREM: if(!b) die("division by zero in IR"); return a%b;
  case E_SDIV: if(!b) die("division by zero in IR"); return trunc((u128)(sx(a,w)/sx(b,w)),w); case E_SREM: if(!b) die("division by zero in IR"); return trunc((u128)(sx(a,w)%sx(b,w)),w);
  case E_SHL:return b>=(u128)w?0:trunc(a<<(int)b,w); case E_LSHR:return b>=(u128)w?0:trunc(a,w)>>(int)b; case E_ASHR:{ int s=b>=(u128)w?w-1:(int)b; return trunc((u128)(sx(a,w)>>s),w);} 
  case E_AND:return a&b; case E_OR:return a|b; case E_XOR:return a^b;
  case E_EQ:return a==b; case E_NE:return a!=b; case E_ULT:return a<b; case E_ULE:return a<=b; case E_SLT:return sx(a,w)<sx(b,w); case E_SLE:return sx(a,w)<=sx(b,w);
  default: die("evalBin"); } }
static bool isCmp(EOp op){ return op>=E_EQ&&op<=E_SLE; }
static Val mkNot(const Val&a);
static Val mkIte(const Val&c,const Val&a,const Val&b,int w);
static bool isIteCC(Expr*e){ return e->op==E_ITE && e->k[1]->op==E_CONST && e->k[2]->op==E_CONST; }
static Val mkBin(EOp op,int w,const Val&a,const Val&b){ // w: operand width
  int rw=isCmp(op)?1:w;
  if(!a.e&&!b.e) return Val(evalBin(op,w,a.c,b.c));
  if(w<=64){ Expr*x=a.e,*y=b.e; if((!x||x->op==E_TAB)&&(!y||y->op==E_TAB)&&(!x||!y||x->aux==y->aux)){
    int s=x?x->aux:y->aux; const Mask&m=liveMask(s); int n=syms[s].n; vector<u64> r(n,0);
    for(int i=0;i<n;i++) if(m.get(i)){ u128 av=x?(*x->tab)[i]:a.c, bv=y?(*y->tab)[i]:b.c; 
      if((op==E_UDIV||op==E_SDIV||op==E_UREM||op==E_SREM)&&!bv){ r[i]=0; continue; }
      r[i]=(u64)evalBin(op,w,av,bv);} return mkTab(s,rw,r); } }
  // constants to the right for commutative ops
  if(!a.e&&(op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ||op==E_NE)) return mkBin(op,w,b,a);
  if(a.e&&a.e==b.e) switch(op){ case E_SUB:case E_XOR: return Val(0); case E_AND:case E_OR: return a; case E_EQ:case E_ULE:case E_SLE: return Val(1); case E_NE:case E_ULT:case E_SLT: return Val(0); default:; }
  if(!b.e){ u128 k=b.c; switch(op){
    case E_ADD:case E_SUB:case E_SHL:case E_LSHR:case E_ASHR: if(!k) return a; if((op==E_SHL||op==E_LSHR)&&k>=(u128)w) return Val(0); break;
    case E_OR: if(!k) return a; if(k==maskw(w)) return b; break;
    case E_XOR: if(!k) return a; if(w==1&&k==1) return mkNot(a); break;
    case E_AND: if(!k) return Val(0); if(k==maskw(w)) return a; break;
    case E_MUL: if(!k) return Val(0); if(k==1) return a; break;
    case E_EQ: if(w==1) return k? a: mkNot(a); break;
    case E_NE: if(w==1) return k? mkNot(a): a; break;
    case E_ULT: if(!k) return Val(0); break;
    case E_ULE: if(k==maskw(w)) return Val(1); break;
    default:; }
    Expr*x=a.e;
    if(isIteCC(x)) return mkIte(fromE(x->k[0]),Val(evalBin(op,w,x->k[1]->c,k)),Val(evalBin(op,w,x->k[2]->c,k)),rw);
    if(x->op==E_ITE&&(x->k[1]->op==E_CONST||x->k[2]->op==E_CONST||op==E_EQ||op==E_NE)&&(isCmp(op)))
      return mkIte(fromE(x->k[0]),mkBin(op,w,fromE(x->k[1]),b),mkBin(op,w,fromE(x->k[2]),b),rw);
    if((op==E_EQ||op==E_NE)&&x->op==E_ZEXT){ int kw=x->k[0]->w; if(k>maskw(kw)) return Val(op==E_NE); return mkBin(op,kw,fromE(x->k[0]),Val(k)); }
    if((op==E_ULT||op==E_ULE)&&x->op==E_ZEXT){ int kw=x->k[0]->w; if(k>maskw(kw)) return Val(1); return mkBin(op,kw,fromE(x->k[0]),Val(k)); }
    if(op==E_AND&&x->op==E_ZEXT){ int kw=x->k[0]->w; if((k&maskw(kw))==maskw(kw)) return a; }
    if(op==E_AND&&x->op==E_AND&&x->k[1]->op==E_CONST) return mkBin(E_AND,w,fromE(x->k[0]),Val(x->k[1]->c&k));
    if(op==E_ADD&&x->op==E_ADD&&x->k[1]->op==E_CONST) return mkBin(E_ADD,w,fromE(x->k[0]),Val(trunc(x->k[1]->c+k,w)));
    if(op==E_LSHR&&x->op==E_ZEXT&&k>=x->k[0]->w) return Val(0);
    if(op==E_SUB) return mkBin(E_ADD,w,a,Val(trunc(-k,w)));
  } else if(!a.e){ u128 k=a.c; switch(op){ case E_SHL:case E_LSHR: if(!k) return Val(0); break; case E_ASHR: if(!k) return Val(0); break; case E_ULE: if(!k) return Val(1); break; case E_ULT: if(k==maskw(w)) return Val(0); break; default:; }
    Expr*x=b.e;
    if(isIteCC(x)&&op!=E_UDIV&&op!=E_UREM&&op!=E_SDIV&&op!=E_SREM) return mkIte(fromE(x->k[0]),Val(evalBin(op,w,k,x->k[1]->c)),Val(evalBin(op,w,k,x->k[2]->c)),rw);
  }
  Expr*x=toE(a,w),*y=toE(b,w);
  if((op==E_AND||op==E_OR||op==E_XOR||op==E_EQ||op==E_ADD||op==E_MUL||op==E_NE)&&y->op!=E_CONST&&x>y) std::swap(x,y);
  if(op==E_NE) return mkNot(fromE(mkRaw(E_EQ,1,x,y)));
  if(w==1&&(op==E_AND||op==E_OR)){ // absorb
    if(x->op==E_XOR&&x->k[0]==y) return Val(op==E_OR); if(y->op==E_XOR&&y->k[0]==x) return Val(op==E_OR); }
  return Val(0,mkRaw(op,rw,x,y)); }
static Val mkNot(const Val&a){ if(!a.e) return Val(a.c^1); Expr*x=a.e;
  if(x->op==E_TAB){ vector<u64> r(*x->tab); for(auto&v:r) v^=1; return mkTab(x->aux,1,r); }
  if(x->op==E_XOR&&x->k[1]->op==E_CONST&&x->k[1]->c==1) return fromE(x->k[0]);
  if(x->op==E_ITE&&(x->k[1]->op==E_CONST||x->k[2]->op==E_CONST)) return mkIte(fromE(x->k[0]),mkNot(fromE(x->k[1])),mkNot(fromE(x->k[2])),1);
  return Val(0,mkRaw(E_XOR,1,x,mkConstE(1,1))); }
static Val mkIte(const Val&c,const Val&a,const Val&b,int w){ if(!c.e) return c.c?a:b; if(a.e==b.e&&(a.e||a.c==b.c)) return a;
  if(w<=64&&c.e->op==E_TAB){ int s=c.e->aux; if((!a.e||(a.e->op==E_TAB&&a.e->aux==s))&&(!b.e||(b.e->op==E_TAB&&b.e->aux==s))){ int n=syms[s].n; vector<u64> r(n); for(int i=0;i<n;i++) r[i]=(*c.e->tab)[i]? (a.e?(*a.e->tab)[i]:(u64)a.c):(b.e?(*b.e->tab)[i]:(u64)b.c); return mkTab(s,w,r);} }
  if(w==1){ if(!a.e&&!b.e) return a.c? c: mkNot(c); if(!a.e) return a.c? mkBin(E_OR,1,c,b): mkBin(E_AND,1,mkNot(c),b); if(!b.e) return b.c? mkBin(E_OR,1,mkNot(c),a): mkBin(E_AND,1,c,a); }
  Expr*x=toE(a,w),*y=toE(b,w);
  if(x->op==E_ITE&&x->k[0]==c.e) x=x->k[1]; if(y->op==E_ITE&&y->k[0]==c.e) y=y->k[2]; if(x==y) return fromE(x);
  return Val(0,mkRaw(E_ITE,w,c.e,x,y)); }
static Val mkZext(const Val&a,int fw,int tw){ if(fw==tw) return a; if(!a.e) return a; Expr*x=a.e;
  if(x->op==E_TAB&&tw<=64){ vector<u64> r(*x->tab); return mkTab(x->aux,tw,r);} if(isIteCC(x)) return mkIte(fromE(x->k[0]),Val(x->k[1]->c),Val(x->k[2]->c),tw);
  if(x->op==E_ZEXT) return Val(0,mkRaw(E_ZEXT,tw,x->k[0])); return Val(0,mkRaw(E_ZEXT,tw,x)); }
static Val mkSext(const Val&a,int fw,int tw){ if(fw==tw) return a; if(!a.e) return Val(trunc((u128)sx(a.c,fw),tw)); Expr*x=a.e;
  if(x->op==E_TAB&&tw<=64){ vector<u64> r(*x->tab); for(auto&v:r) v=(u64)trunc((u128)sx(v,fw),tw); return mkTab(x->aux,tw,r);} 
  if(isIteCC(x)) return mkIte(fromE(x->k[0]),mkSext(Val(x->k[1]->c),fw,tw),mkSext(Val(x->k[2]->c),fw,tw),tw);
  return Val(0,mkRaw(E_SEXT,tw,x)); }
static Val mkExtract(const Val&a,int fw,int lo,int w){ if(lo==0&&w==fw) return a; if(!a.e) return Val(trunc(a.c>>lo,w)); Expr*x=a.e;
  if(x->op==E_TAB){ vector<u64> r(*x->tab); for(auto&v:r) v=(u64)trunc((u128)v>>lo,w); return mkTab(x->aux,w,r);} 
  if(isIteCC(x)) return mkIte(fromE(x->k[0]),Val(trunc(x->k[1]->c>>lo,w)),Val(trunc(x->k[2]->c>>lo,w)),w);
  if(x->op==E_ZEXT){ int kw=x->k[0]->w; if(lo>=kw) return Val(0); if(lo+w<=kw) return mkExtract(fromE(x->k[0]),kw,lo,w); if(lo==0) return mkZext(fromE(x->k[0]),kw,w); }
  if(x->op==E_SEXT){ int kw=x->k[0]->w; if(lo+w<=kw) return mkExtract(fromE(x->k[0]),kw,lo,w); }
  if(x->op==E_EXTRACT) return mkExtract(fromE(x->k[0]),x->k[0]->w,x->aux+lo,w);
  if(x->op==E_CONCAT){ int lw=x->k[1]->w; if(lo>=lw) return mkExtract(fromE(x->k[0]),x->k[0]->w,lo-lw,w); if(lo+w<=lw) return mkExtract(fromE(x->k[1]),lw,lo,w); }
  if(x->op==E_ITE) return mkIte(fromE(x->k[0]),mkExtract(fromE(x->k[1]),fw,lo,w),mkExtract(fromE(x->k[2]),fw,lo,w),w);
  return Val(0,mkRaw(E_EXTRACT,w,x,nullptr,nullptr,lo)); }
static Val mkConcat(const Val&hi,int hw,const Val&lo,int lw){ int w=hw+lw; if(!hi.e&&!lo.e) return Val((hi.c<<lw)|lo.c); if(!hi.e&&hi.c==0) return mkZext(lo,lw,w);
  if(w<=64){ Expr*x=hi.e,*y=lo.e; if((!x||x->op==E_TAB)&&(!y||y->op==E_TAB)&&(!x||!y||x->aux==y->aux)){ int s=x?x->aux:y->aux; int n=syms[s].n; vector<u64> r(n); for(int i=0;i<n;i++) r[i]=((x?(*x->tab)[i]:(u64)hi.c)<<lw)|(y?(*y->tab)[i]:(u64)lo.c); return mkTab(s,w,r);} }
  Expr*x=toE(hi,hw),*y=toE(lo,lw);
  if(x->op==E_EXTRACT&&y->op==E_EXTRACT&&x->k[0]==y->k[0]&&x->aux==y->aux+lw) return mkExtract(fromE(x->k[0]),x->k[0]->w,y->aux,w);
  return Val(0,mkRaw(E_CONCAT,w,x,y)); }

// -------------------------------------------------------------------- types
struct Type { enum K{Int,Ptr,Void,Struct,Array,Vec,Float,Other} k; int bits=0; vector<Type*> el; bool packed=false; u64 n=0; u64 size=0, align=1; vector<u64> off; string name; bool laid=false; };
struct Leaf2 { u64 off; int bits; };
static Type* mkInt(int b){ static map<int,Type*> m; auto&t=m[b]; if(!t){ t=new Type; t->k=Type::Int; t->bits=b; } return t; }
static Type* tPtr(){ static Type*t=nullptr; if(!t){ t=new Type; t->k=Type::Ptr; t->bits=64; } return t; }
static Type* tVoid(){ static Type*t=nullptr; if(!t){ t=new Type; t->k=Type::Void; } return t; }
static void layout(Type*t){ if(t->laid) return; t->laid=true; switch(t->k){
  case Type::Int: { u64 b=(t->bits+7)/8; u64 a=1; while(a<b&&a<16) a<<=1; t->align=a; t->size=(b+a-1)/a*a; break; }
  case Type::Ptr: t->size=t->align=8; break; case Type::Float: t->size=t->align=t->bits/8; break;
  case Type::Array: layout(t->el[0]); t->size=t->el[0]->size*t->n; t->align=t->el[0]->align; break;
  case Type::Vec: layout(t->el[0]); t->size=t->el[0]->size*t->n; t->align=t->size?t->size:1; break;
  case Type::Struct: { u64 o=0,al=1; for(auto e:t->el){ layout(e); u64 a=t->packed?1:e->align; o=(o+a-1)/a*a; t->off.push_back(o); o+=e->size; al=std::max(al,a);} t->size=(o+al-1)/al*al; t->align=al; break; }
  default: t->size=0; } }
static void leaves(Type*t,u64 base,vector<Leaf2>&out){ layout(t); switch(t->k){ case Type::Int:case Type::Float: out.push_back({base,t->bits}); break; case Type::Ptr: out.push_back({base,64}); break;
  case Type::Array:case Type::Vec: for(u64 i=0;i<t->n;i++) leaves(t->el[0],base+i*t->el[0]->size,out); break;
  case Type::Struct: for(size_t i=0;i<t->el.size();i++) leaves(t->el[i],base+t->off[i],out); break; default:; } }
static int nleaves(Type*t){ switch(t->k){ case Type::Int:case Type::Ptr:case Type::Float: return 1; case Type::Array:case Type::Vec: return (int)t->n*nleaves(t->el[0]); case Type::Struct:{ int s=0; for(auto e:t->el) s+=nleaves(e); return s;} default: return 0; } }

// ------------------------------------------------------------------- lexer
struct Tok { enum K{Id,Local,Global,Int,Str,CStr,Punct,Meta,Attr,End} k; string s; int line; };
static vector<Tok> toks;
static string unesc(const string&s){ string r; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'){ if(i+1<s.size()&&s[i+1]=='\\'){ r+='\\'; i++; } else { r+=(char)strtol(s.substr(i+1,2).c_str(),nullptr,16); i+=2; } } else r+=s[i]; } return r; }
static void lex(const string&src){ size_t i=0,n=src.size(); int line=1; auto idc=[&](char c){ return isalnum((unsigned char)c)||c=='_'||c=='.'||c=='$'||c=='-'; };
  while(i<n){ char c=src[i]; if(c=='\n'){ line++; i++; continue; } if(isspace((unsigned char)c)){ i++; continue; } if(c==';'){ while(i<n&&src[i]!='\n') i++; continue; }
    if(c=='@'||c=='%'){ Tok::K k=c=='@'?Tok::Global:Tok::Local; i++; string s; if(src[i]=='"'){ i++; size_t b=i; while(src[i]!='"') i++; s=unesc(src.substr(b,i-b)); i++; } else { size_t b=i; while(i<n&&idc(src[i])) i++; s=src.substr(b,i-b);} toks.push_back({k,s,line}); continue; }
    if(c=='!'){ i++; if(src[i]=='"'){ i++; while(src[i]!='"') i++; i++; toks.push_back({Tok::Meta,"str",line}); continue;} size_t b=i; while(i<n&&(idc(src[i]))) i++; toks.push_back({Tok::Meta,src.substr(b,i-b),line}); continue; }
    if(c=='#'){ i++; size_t b=i; while(i<n&&idc(src[i])) i++; toks.push_back({Tok::Attr,src.substr(b,i-b),line}); continue; }
    if(c=='"'){ i++; size_t b=i; while(src[i]!='"') i++; string s=src.substr(b,i-b); i++; if(i<n&&src[i]==':'){ } toks.push_back({Tok::Str,s,line}); continue; }
    if(c=='c'&&i+1<n&&src[i+1]=='"'){ i+=2; size_t b=i; while(src[i]!='"') i++; toks.push_back({Tok::CStr,unesc(src.substr(b,i-b)),line}); i++; continue; }
    if(isdigit((unsigned char)c)||(c=='-'&&i+1<n&&isdigit((unsigned char)src[i+1]))){ size_t b=i; i++; while(i<n&&(isalnum((unsigned char)src[i])||src[i]=='.'||src[i]=='+'||(src[i]=='-'&&src[i-1]=='e')||src[i]=='_')) i++; toks.push_back({Tok::Int,src.substr(b,i-b),line}); continue; }
    if(isalpha((unsigned char)c)||c=='_'||c=='$'||c=='.'){ if(src.compare(i,3,"...")==0){ toks.push_back({Tok::Punct,"...",line}); i+=3; continue; } size_t b=i; while(i<n&&idc(src[i])) i++; toks.push_back({Tok::Id,src.substr(b,i-b),line}); continue; }
    toks.push_back({Tok::Punct,string(1,c),line}); i++; }
  toks.push_back({Tok::End,"",line+1}); }

// ------------------------------------------------------------------ module
struct CE; typedef std::shared_ptr<CE> CEp;
struct CE { enum K{Int,Zero,Sym,Agg,Bytes,Cast,Bin,Gep} k; u128 v=0; string s; vector<CEp> el; vector<Type*> ty; Type*t=nullptr; string op; };
struct Leaf { int slot; Val v; };
typedef vector<Leaf> Opnd;
enum Opc { O_BIN,O_ICMP,O_SELECT,O_PHI,O_GEP,O_LOAD,O_STORE,O_ALLOCA,O_BR,O_CBR,O_SWITCH,O_RET,O_UNREACH,O_CALL,O_EXTRACTV,O_INSERTV,O_CAST,O_FREEZE,O_FENCE,O_EXTRELEM,O_INSELEM,O_SHUF,O_RMW,O_CMPXCHG,O_UNSUP };
struct GepT { u64 scale; Leaf v; int bits; };
struct Func;
struct Instr { Opc op; int dst=-1; int nd=0; Type*ty=nullptr; Type*ty2=nullptr; EOp eop; int sub=0; Opnd a,b,c; int bits=0,tbits=0; vector<Leaf2> lv; u64 cst=0; vector<GepT> gt; int t0=-1,t1=-1; vector<std::pair<u128,int>> cases; vector<std::pair<int,Opnd>> phi; int l0=0,l1=0; string callee; Func*fn=nullptr; vector<Opnd> args; vector<int> argbits; int line=0; bool swap=false; vector<int> shuf; int intr=-1; };
struct Block { string name; vector<Instr> ins; int nphi=0; };
struct Func { string name; bool defined=false; bool noreturn=false; Type*ret=nullptr; vector<Type*> params; vector<int> paramSlot; vector<string> pnames; int nslots=0; vector<Block> bb; map<string,int> bbIdx; map<string,std::pair<int,int>> slots; u64 addr=0; u64 steps=0; int attr=-1; string attrGroup; };
struct Global { string name; Type*ty=nullptr; CEp init; bool ext=true; bool cst=false; u64 addr=0; };
static map<string,Func*> funcs; static map<string,Global*> globals; static map<string,string> aliases; static map<string,Type*> named; static map<string,bool> attrNoreturn;

static const u64 SLOTSZ=1ull<<24; // address space reserved per object
struct Cell { Expr*e; uint8_t k; };
struct Obj { u64 base=0,size=0; bool dead=false, ro=false, heap=false; vector<uint8_t> b; vector<Cell> s; /* symbolic overlay, empty if none */ };
typedef std::shared_ptr<Obj> ObjP;
static vector<ObjP> initMem; static map<u64,Func*> funcByAddr;
static u64 newAddr(size_t idx){ return (u64)(idx+1)*SLOTSZ; }
static size_t addrIdx(u64 a){ return (size_t)(a/SLOTSZ)-1; }
static u64 symAddr(const string&n0){ string n=n0; while(aliases.count(n)) n=aliases[n]; 
  auto f=funcs.find(n); if(f!=funcs.end()){ if(!f->second->addr){ auto o=std::make_shared<Obj>(); o->base=newAddr(initMem.size()); o->size=0; initMem.push_back(o); f->second->addr=o->base; funcByAddr[o->base]=f->second; } return f->second->addr; }
  auto g=globals.find(n); if(g!=globals.end()){ if(!g->second->addr){ auto o=std::make_shared<Obj>(); o->base=newAddr(initMem.size()); Type*t=g->second->ty; layout(t); o->size=t->size; o->b.assign(o->size,0); o->ro=g->second->cst; initMem.push_back(o); g->second->addr=o->base; } return g->second->addr; }
  // forward reference to an undeclared symbol: treat as a function
  Func*fn=new Func; fn->name=n; funcs[n]=fn; return symAddr(n); }

// ------------------------------------------------------------------ parser
struct Parser { size_t p=0; Func*f=nullptr;
  Tok&t(int k=0){ return toks[std::min(p+k,toks.size()-1)]; }
  bool is(const char*s){ return (t().k==Tok::Punct||t().k==Tok::Id)&&t().s==s; }
  bool eat(const char*s){ if(is(s)){ p++; return true;} return false; }
  [[noreturn]] void err(const string&m){ die("IR parse error line "+std::to_string(t().line)+": "+m+" near '"+t().s+"'"); }
  void want(const char*s){ if(!eat(s)) err(string("expected ")+s); }
  bool isType(){ if(t().k==Tok::Punct) return t().s=="["||t().s=="{"||t().s=="<"; if(t().k==Tok::Local) return named.count(t().s); if(t().k!=Tok::Id) return false; const string&s=t().s; if(s=="void"||s=="ptr"||s=="label"||s=="metadata"||s=="half"||s=="float"||s=="double"||s=="fp128"||s=="x86_fp80") return true; if(s[0]=='i'&&s.size()>1){ for(size_t i=1;i<s.size();i++) if(!isdigit((unsigned char)s[i])) return false; return true;} return false; }
  Type* type(){ if(t().k==Tok::Local){ auto it=named.find(t().s); if(it==named.end()) err("unknown type"); p++; return it->second; }
    if(eat("[")){ u64 n=strtoull(t().s.c_str(),0,10); p++; want("x"); Type*e=type(); want("]"); Type*r=new Type; r->k=Type::Array; r->n=n; r->el={e}; return r; }
    if(is("<")){ p++; if(eat("{")){ Type*r=new Type; r->k=Type::Struct; r->packed=true; if(!is("}")) do r->el.push_back(type()); while(eat(",")); want("}"); want(">"); return r; }
      u64 n=strtoull(t().s.c_str(),0,10); p++; want("x"); Type*e=type(); want(">"); Type*r=new Type; r->k=Type::Vec; r->n=n; r->el={e}; return r; }
    if(eat("{")){ Type*r=new Type; r->k=Type::Struct; if(!is("}")) do r->el.push_back(type()); while(eat(",")); want("}"); return r; }
    if(t().k!=Tok::Id) err("type"); string s=t().s; p++;
    if(s=="void") return tVoid(); if(s=="ptr"){ if(is("addrspace")){ p++; skipParens(); } return tPtr(); }
    if(s=="float"||s=="double"||s=="half"||s=="fp128"||s=="x86_fp80"){ Type*r=new Type; r->k=Type::Float; r->bits=s=="float"?32:s=="double"?64:s=="half"?16:128; return r; }
    if(s=="label"||s=="metadata"||s=="token"){ Type*r=new Type; r->k=Type::Other; r->name=s; return r; }
    if(s[0]=='i') return mkInt(atoi(s.c_str()+1)); err("type "+s); }
  void skipParens(){ want("("); int d=1; while(d){ if(t().k==Tok::End) err("eof"); if(t().k==Tok::Punct){ if(t().s=="(") d++; if(t().s==")") d--; } p++; } }
  bool valueKw(){ static const set<string> v={"null","undef","poison","true","false","zeroinitializer","getelementptr","inttoptr","ptrtoint","trunc","zext","sext","bitcast","add","sub","xor","mul","shl","or","and","splat","none","icmp","select","addrspacecast"}; return t().k==Tok::Id&&v.count(t().s); }
  void skipAttrs(){ for(;;){ if(t().k==Tok::Attr||t().k==Tok::Str){ bool str=t().k==Tok::Str; p++; if(str&&is("=")){ p++; p++; } continue; } if(t().k==Tok::Id&&!valueKw()&&!isType()){ string s=t().s; p++; if(s=="align"&&t().k==Tok::Int){ p++; continue;} if(is("(")) skipParens(); continue; } break; } }
  CEp cint(u128 v){ auto c=std::make_shared<CE>(); c->k=CE::Int; c->v=v; return c; }
  CEp constant(Type*ty){ auto c=std::make_shared<CE>(); c->t=ty;
    if(t().k==Tok::Int){ string s=t().s; p++; c->k=CE::Int; if(s.size()>2&&s[0]=='0'&&s[1]=='x'){ c->v=strtoull(s.c_str(),0,16); return c; } if(s.find('.')!=string::npos){ double d=strtod(s.c_str(),0); if(ty->bits==32){ float f2=d; uint32_t u; memcpy(&u,&f2,4); c->v=u;} else { u64 u; memcpy(&u,&d,8); c->v=u;} return c; }
      bool neg=s[0]=='-'; u128 v=0; for(char ch:s) if(isdigit((unsigned char)ch)) v=v*10+(ch-'0'); if(neg) v=-v; c->v=trunc(v,ty->k==Type::Ptr?64:ty->bits); return c; }
    if(t().k==Tok::Global){ c->k=CE::Sym; c->s=t().s; p++; return c; }
    if(t().k==Tok::CStr){ c->k=CE::Bytes; c->s=t().s; p++; return c; }
    if(t().k==Tok::Punct){ string cl; if(is("[")){ cl="]"; p++; } else if(is("{")){ cl="}"; p++; } else if(is("<")){ p++; if(eat("{")) cl="}>"; else cl=">"; } else err("constant");
      c->k=CE::Agg; if(!(t().k==Tok::Punct&&t().s==cl.substr(0,1))) do{ Type*et=type(); c->ty.push_back(et); c->el.push_back(constant(et)); } while(eat(",")); for(char ch:cl){ char b[2]={ch,0}; want(b);} return c; }
    string s=t().s; p++;
    if(s=="true"){ c->k=CE::Int; c->v=1; return c; } if(s=="false"||s=="null"||s=="none"){ c->k=CE::Int; c->v=0; return c; }
    if(s=="undef"||s=="poison"||s=="zeroinitializer"){ c->k=CE::Zero; return c; }
    if(s=="splat"){ want("("); Type*et=type(); CEp e=constant(et); want(")"); c->k=CE::Agg; for(u64 i=0;i<ty->n;i++){ c->ty.push_back(et); c->el.push_back(e);} return c; }
    if(s=="inttoptr"||s=="ptrtoint"||s=="trunc"||s=="zext"||s=="sext"||s=="bitcast"||s=="addrspacecast"){ while(t().k==Tok::Id&&!is("(")) p++; want("("); Type*ft=type(); CEp e=constant(ft); want("to"); Type*tt=type(); want(")"); c->k=CE::Cast; c->op=s; c->ty={ft,tt}; c->el={e}; return c; }
    if(s=="add"||s=="sub"||s=="xor"||s=="mul"||s=="shl"||s=="or"||s=="and"){ while(t().k==Tok::Id) p++; want("("); Type*a=type(); CEp x=constant(a); want(","); Type*b=type(); CEp y=constant(b); want(")"); c->k=CE::Bin; c->op=s; c->ty={a}; c->el={x,y}; return c; }
    if(s=="getelementptr"){ while(t().k==Tok::Id&&!is("(")){ p++; if(t().k==Tok::Punct&&is("(")){ // could be inrange(...) 
            if(toks[p-1].s=="inrange"){ skipParens(); } else break; } } want("("); Type*bt=type(); c->ty.push_back(bt); while(eat(",")){ Type*et=type(); skipAttrs(); c->ty.push_back(et); c->el.push_back(constant(et)); } want(")"); c->k=CE::Gep; return c; }
    err("constant "+s); }
  static i64 gepOff(Type*bt,const vector<u128>&idx,const vector<int>&bits){ i64 o=0; Type*ct=bt; for(size_t i=0;i<idx.size();i++){ i64 v=(i64)sx(idx[i],bits[i]); if(i==0){ layout(ct); o+=v*(i64)ct->size; } else if(ct->k==Type::Struct){ layout(ct); o+=ct->off[v]; ct=ct->el[v]; } else { Type*e=ct->el[0]; layout(e); o+=v*(i64)e->size; ct=e; } } return o; }
  static Val evalScalar(CEp c,Type*t){ switch(c->k){ case CE::Int: return Val(c->v); case CE::Zero: return Val(0); case CE::Sym: return Val(symAddr(c->s));
    case CE::Cast: { Val v=evalScalar(c->el[0],c->ty[0]); int fw=c->ty[0]->k==Type::Ptr?64:c->ty[0]->bits, tw=c->ty[1]->k==Type::Ptr?64:c->ty[1]->bits; if(c->op=="sext") return Val(trunc((u128)sx(v.c,fw),tw)); return Val(trunc(v.c,tw)); }
    case CE::Bin: { Val a=evalScalar(c->el[0],c->ty[0]),b=evalScalar(c->el[1],c->ty[0]); int w=c->ty[0]->bits; EOp o=c->op=="add"?E_ADD:c->op=="sub"?E_SUB:c->op=="xor"?E_XOR:c->op=="mul"?E_MUL:c->op=="shl"?E_SHL:c->op=="or"?E_OR:E_AND; return Val(evalBin(o,w,a.c,b.c)); }
    case CE::Gep: { Val b=evalScalar(c->el[0],c->ty[1]); vector<u128> ix; vector<int> bits; for(size_t i=1;i<c->el.size();i++){ ix.push_back(evalScalar(c->el[i],c->ty[i+1]).c); bits.push_back(c->ty[i+1]->bits);} return Val(trunc(b.c+(u128)(i128)gepOff(c->ty[0],ix,bits),64)); }
    default: die("const scalar"); } (void)t; }
  static void flat(CEp c,Type*t,vector<Val>&out){ if(t->k==Type::Int||t->k==Type::Ptr||t->k==Type::Float){ out.push_back(c->k==CE::Zero?Val(0):evalScalar(c,t)); return; }
    int n=nleaves(t); if(c->k==CE::Zero){ for(int i=0;i<n;i++) out.push_back(Val(0)); return; }
    if(c->k==CE::Bytes){ for(unsigned char ch:c->s) out.push_back(Val(ch)); return; }
    if(c->k!=CE::Agg) die("const agg"); for(size_t i=0;i<c->el.size();i++) flat(c->el[i],c->ty[i],out); }
  int slotOf(const string&n,Type*ty){ auto it=f->slots.find(n); if(it!=f->slots.end()) return it->second.first; int k=nleaves(ty); int s=f->nslots; f->nslots+=k; f->slots[n]={s,k}; return s; }
  Opnd value(Type*ty){ Opnd o; if(t().k==Tok::Local){ string n=t().s; p++; int s=slotOf(n,ty); int k=nleaves(ty); for(int i=0;i<k;i++) o.push_back({s+i,Val()}); return o; }
    CEp c=constant(ty); vector<Val> v; flat(c,ty,v); for(auto&x:v) o.push_back({-1,x}); return o; }
  Opnd tvalue(Type**tt=nullptr){ Type*ty=type(); skipAttrs(); if(tt)*tt=ty; return value(ty); }
  int bbOf(const string&n){ auto it=f->bbIdx.find(n); if(it!=f->bbIdx.end()) return it->second; int i=f->bb.size(); f->bb.push_back({n,{},0}); f->bbIdx[n]=i; return i; }
  int label(){ want("label"); if(t().k!=Tok::Local) err("label"); string n=t().s; p++; return bbOf(n); }
  static int sbits(Type*t){ if(t->k==Type::Vec) t=t->el[0]; return t->k==Type::Ptr?64:t->bits; }

  void instr(Block&B,int bidx){ (void)bidx; Instr I; I.line=t().line; string dst; bool hasDst=false; if(t().k==Tok::Local&&t(1).k==Tok::Punct&&t(1).s=="="){ dst=t().s; hasDst=true; p+=2; }
    string op=t().s; p++; if(op=="tail"||op=="musttail"||op=="notail"){ op=t().s; p++; }
    auto setDst=[&](Type*ty){ I.nd=nleaves(ty); if(hasDst) I.dst=slotOf(dst,ty); };
    static const map<string,EOp> bins={{"add",E_ADD},{"sub",E_SUB},{"mul",E_MUL},{"udiv",E_UDIV},{"sdiv",E_SDIV},{"urem",E_UREM},{"srem",E_SREM},{"shl",E_SHL},{"lshr",E_LSHR},{"ashr",E_ASHR},{"and",E_AND},{"or",E_OR},{"xor",E_XOR}};
    auto bi=bins.find(op);
    if(bi!=bins.end()){ while(is("nuw")||is("nsw")||is("exact")||is("disjoint")) p++; Type*ty=type(); I.op=O_BIN; I.eop=bi->second; I.bits=sbits(ty); I.a=value(ty); want(","); I.b=value(ty); setDst(ty); }
    else if(op=="icmp"){ while(is("samesign")) p++; string pr=t().s; p++; Type*ty=type(); I.op=O_ICMP; I.bits=sbits(ty); I.a=value(ty); want(","); I.b=value(ty);
      static const map<string,std::pair<EOp,bool>> ps={{"eq",{E_EQ,0}},{"ne",{E_NE,0}},{"ult",{E_ULT,0}},{"ule",{E_ULE,0}},{"ugt",{E_ULT,1}},{"uge",{E_ULE,1}},{"slt",{E_SLT,0}},{"sle",{E_SLE,0}},{"sgt",{E_SLT,1}},{"sge",{E_SLE,1}}}; auto it=ps.find(pr); if(it==ps.end()) err("icmp"); I.eop=it->second.first; I.swap=it->second.second; 
      Type*rt=mkInt(1); if(ty->k==Type::Vec){ rt=new Type; rt->k=Type::Vec; rt->n=ty->n; rt->el={mkInt(1)}; } setDst(rt); }
    else if(op=="select"){ I.op=O_SELECT; Type*ct; I.c=tvalue(&ct); want(","); Type*ty; I.a=tvalue(&ty); want(","); I.b=tvalue(); vector<Leaf2> lv; leaves(ty,0,lv); I.lv=lv; setDst(ty); }
    else if(op=="phi"){ Type*ty=type(); I.op=O_PHI; setDst(ty); do{ want("["); Opnd v=value(ty); want(","); if(t().k!=Tok::Local) err("phi"); int b=bbOf(t().s); p++; want("]"); I.phi.push_back({b,v}); } while(eat(",")); B.nphi++; }
    else if(op=="getelementptr"){ while(is("inbounds")||is("nuw")||is("nusw")) p++; Type*bt=type(); want(","); Type*pt; I.op=O_GEP; I.a=tvalue(&pt); if(pt->k==Type::Vec) I.op=O_UNSUP; Type*ct=bt; bool first=true; i64 cst=0; while(t().line==I.line&&is(",")){ if(t(1).k==Tok::Meta) break; p++; Type*it; Opnd v=tvalue(&it); if(it->k==Type::Vec) I.op=O_UNSUP; 
        if(!first&&ct->k==Type::Struct){ layout(ct); if(v[0].slot>=0) err("gep struct idx"); int ix=(int)v[0].v.c; cst+=ct->off[ix]; ct=ct->el[ix]; }
        else { if(!first) ct=ct->el[0]; layout(ct); if(v[0].slot<0) cst+=(i64)sx(v[0].v.c,it->bits)*(i64)ct->size; else I.gt.push_back({ct->size,v[0],it->bits}); } first=false; }
      I.cst=(u64)cst; setDst(tPtr()); }
    else if(op=="load"){ while(is("volatile")||is("atomic")) p++; Type*ty=type(); want(","); I.op=O_LOAD; I.a=tvalue(); leaves(ty,0,I.lv); I.ty=ty; setDst(ty); }
    else if(op=="store"){ while(is("volatile")||is("atomic")) p++; Type*ty; I.op=O_STORE; I.a=tvalue(&ty); want(","); I.b=tvalue(); leaves(ty,0,I.lv); I.ty=ty; }
    else if(op=="alloca"){ Type*ty=type(); layout(ty); I.op=O_ALLOCA; I.cst=ty->size; setDst(tPtr()); if(is(",")&&t(1).k!=Tok::Meta&&!(t(1).k==Tok::Id&&t(1).s=="align")){ p++; Opnd v=tvalue(); if(v[0].slot>=0) I.op=O_UNSUP; I.cst=ty->size*(u64)v[0].v.c; } }
    else if(op=="br"){ if(is("label")){ I.op=O_BR; I.t0=label(); } else { I.op=O_CBR; I.c=tvalue(); want(","); I.t0=label(); want(","); I.t1=label(); } }
    else if(op=="switch"){ Type*ty; I.op=O_SWITCH; I.a=tvalue(&ty); I.bits=sbits(ty); want(","); I.t0=label(); want("["); while(!is("]")){ Type*ct=type(); CEp c=constant(ct); want(","); int b=label(); I.cases.push_back({c->v,b}); } int ln=t().line; want("]"); while(t().line==ln&&t().k!=Tok::End) p++; }
    else if(op=="ret"){ I.op=O_RET; if(is("void")){ p++; } else I.a=tvalue(); }
    else if(op=="unreachable"){ I.op=O_UNREACH; }
    else if(op=="extractvalue"){ Type*ty; I.op=O_EXTRACTV; I.a=tvalue(&ty); int o=0; Type*ct=ty; while(is(",")&&t(1).k==Tok::Int){ p++; int ix=atoi(t().s.c_str()); p++; if(ct->k==Type::Struct){ for(int i=0;i<ix;i++) o+=nleaves(ct->el[i]); ct=ct->el[ix]; } else { o+=ix*nleaves(ct->el[0]); ct=ct->el[0]; } } I.l0=o; setDst(ct); }
    else if(op=="insertvalue"){ Type*ty; I.op=O_INSERTV; I.a=tvalue(&ty); want(","); Type*vt; I.b=tvalue(&vt); int o=0; Type*ct=ty; while(is(",")&&t(1).k==Tok::Int){ p++; int ix=atoi(t().s.c_str()); p++; if(ct->k==Type::Struct){ for(int i=0;i<ix;i++) o+=nleaves(ct->el[i]); ct=ct->el[ix]; } else { o+=ix*nleaves(ct->el[0]); ct=ct->el[0]; } } I.l0=o; setDst(ty); }
    else if(op=="zext"||op=="sext"||op=="trunc"||op=="ptrtoint"||op=="inttoptr"||op=="bitcast"||op=="addrspacecast"){ while(is("nneg")||is("nuw")||is("nsw")) p++; Type*ft; I.op=O_CAST; I.a=tvalue(&ft); want("to"); Type*tt=type(); I.bits=sbits(ft); I.tbits=sbits(tt); I.sub=op=="sext"?1:0; if(nleaves(ft)!=nleaves(tt)) I.op=O_UNSUP; setDst(tt); }
    else if(op=="freeze"){ Type*ty; I.op=O_FREEZE; I.a=tvalue(&ty); setDst(ty); }
    else if(op=="fence"){ I.op=O_FENCE; }
    else if(op=="extractelement"){ Type*ty; I.op=O_EXTRELEM; I.a=tvalue(&ty); want(","); I.b=tvalue(); setDst(ty->el[0]); }
    else if(op=="insertelement"){ Type*ty; I.op=O_INSELEM; I.a=tvalue(&ty); want(","); I.b=tvalue(); want(","); I.c=tvalue(); setDst(ty); }
    else if(op=="shufflevector"){ Type*ty; I.op=O_SHUF; I.a=tvalue(&ty); want(","); I.b=tvalue(); want(","); Type*mt=type(); CEp c=constant(mt); vector<Val> v; flat(c,mt,v); for(auto&x:v) I.shuf.push_back((int)x.c); Type*rt=new Type; rt->k=Type::Vec; rt->n=mt->n; rt->el={ty->el[0]}; setDst(rt); }
    else if(op=="call"||op=="invoke"){ bool inv=op=="invoke"; // attrs, cc
      for(;;){ if(isType()) break; if(t().k==Tok::Id||t().k==Tok::Attr||t().k==Tok::Str){ string s=t().s; p++; if(s=="align"&&t().k==Tok::Int){ p++; continue;} if(is("(")) skipParens(); continue; } if(t().k==Tok::Int){ p++; continue;} err("call"); }
      Type*rt=type(); if(is("(")) skipParens(); I.op=O_CALL; setDst(rt); I.ty=rt;
      if(t().k==Tok::Global){ I.callee=t().s; p++; } else if(t().k==Tok::Local){ I.a=value(tPtr()); } else if(is("asm")){ I.op=O_UNSUP; I.callee="asm"; } else { I.a=value(tPtr()); }
      if(I.op==O_CALL){ want("("); if(!is(")")) do{ if(is("metadata")){ p++; if(t().k==Tok::Meta){ p++; if(is("{")){ int d=0; do{ if(is("{"))d++; if(is("}"))d--; p++; }while(d);} } else { Type*ty=type(); value(ty);} continue; } Type*at=type(); skipAttrs(); I.args.push_back(value(at)); I.argbits.push_back(sbits(at)); } while(eat(",")); want(")"); }
      if(inv){ while(!is("to")) p++; want("to"); I.t0=label(); want("unwind"); label(); Instr C=I; C.t0=-1; B.ins.push_back(C); Instr J; J.op=O_BR; J.t0=I.t0; J.line=I.line; B.ins.push_back(J); int ln=t(-1).line; while(t().line==ln&&t().k!=Tok::End) p++; return; } }
    else { I.op=O_UNSUP; I.callee=op; if(hasDst){ /* unknown result type: give it up to 4 leaves */ Type*s=new Type; s->k=Type::Struct; s->el={mkInt(64),mkInt(64),mkInt(64),mkInt(64)}; setDst(s);} int ln=I.line; while(t().line==ln&&t().k!=Tok::End) p++; B.ins.push_back(I); return; }
    int ln=toks[p-1].line; while(t().line==ln&&t().k!=Tok::End) p++; B.ins.push_back(I); }

  Func* header(bool def){ // after define/declare
    int l0=t().line; Func tmp; for(;;){ if(isType()) break; if(t().k==Tok::Id||t().k==Tok::Attr||t().k==Tok::Str){ string s=t().s; p++; if(s=="align"&&t().k==Tok::Int){ p++; continue;} if(is("(")) skipParens(); continue; } err("header"); }
    Type*rt=type(); skipAttrs(); if(t().k!=Tok::Global) err("fn name"); string n=t().s; p++; Func*&F=funcs[n]; if(!F) F=new Func; F->name=n; F->ret=rt; f=F; F->defined=def; want("("); int argno=0; if(!is(")")) do{ if(eat("...")) break; Type*ty=type(); skipAttrs(); F->params.push_back(ty); string an; if(t().k==Tok::Local){ an=t().s; p++; } else an=std::to_string(argno); argno++; F->pnames.push_back(an); if(def) F->paramSlot.push_back(slotOf(an,ty)); } while(eat(",")); want(")");
    while(t().k!=Tok::End&&!(def&&is("{"))&&(def||t().line==l0)){ if(t().k==Tok::Attr) F->attrGroup=t().s; if(t().k==Tok::Id&&t().s=="noreturn") F->noreturn=true; p++; }
    return F; }
  void module(){ while(t().k!=Tok::End){ if(t().k==Tok::Id&&(t().s=="source_filename"||t().s=="target"||t().s=="module")){ int l=t().line; while(t().line==l) p++; continue; }
      if(t().k==Tok::Id&&t().s=="attributes"){ int l=t().line; p++; string g=t().s; bool nr=false; while(t().line==l&&t().k!=Tok::End){ if(t().k==Tok::Id&&t().s=="noreturn") nr=true; p++; } attrNoreturn[g]=nr; continue; }
      if(t().k==Tok::Local&&t(1).s=="="&&t(2).s=="type"){ string n=t().s; p+=3; Type*&ty=named[n]; if(!ty) ty=new Type; if(is("opaque")){ p++; ty->k=Type::Other; } else { Type*r=type(); *ty=*r; } continue; }
      if(t().k==Tok::Global){ global(); continue; }
      if(eat("declare")){ header(false); continue; }
      if(eat("define")){ Func*F=header(true); want("{"); int curb=-1; bool any=false; while(!is("}")){ // label?
          if((t().k==Tok::Id||t().k==Tok::Int||t().k==Tok::Str)&&t(1).k==Tok::Punct&&t(1).s==":"){ curb=bbOf(t().s); if(!any&&curb!=0) err("entry"); any=true; p+=2; continue; }
          if(curb<0){ curb=bbOf("$entry"); any=true; }
          Block tmp; tmp.name=F->bb[curb].name; Block work; work.nphi=F->bb[curb].nphi; work.ins.swap(F->bb[curb].ins); instr(work,curb); F->bb[curb].ins.swap(work.ins); F->bb[curb].nphi=work.nphi; }
        want("}"); continue; }
      // metadata and anything else: skip line
      int l=t().line; while(t().line==l&&t().k!=Tok::End) p++; } 
    for(auto&kv:funcs) if(!kv.second->attrGroup.empty()&&attrNoreturn[kv.second->attrGroup]) kv.second->noreturn=true; }
  void global(){ int l=t().line; string n=t().s; p++; want("="); Global*g=new Global; g->name=n; bool ext=false; for(;;){ if(t().k==Tok::Id&&t().s=="alias"){ p++; while(t().k!=Tok::Global) p++; aliases[n]=t().s; while(t().line==l) p++; delete g; return; } if(t().k==Tok::Id&&(t().s=="constant"||t().s=="global")){ g->cst=t().s=="constant"; p++; break; } if(t().k==Tok::Id&&(t().s=="external"||t().s=="extern_weak")) ext=true; if(t().k!=Tok::Id) err("global"); p++; if(is("(")) skipParens(); }
    g->ty=type(); g->ext=ext; globals[n]=g; if(!ext){ g->init=constant(g->ty); } l=toks[p-1].line; while(t().line==l&&t().k!=Tok::End) p++; }
};

// ------------------------------------------------------------------- state
struct Frame { Func*f; int bb; int ip; int prev; vector<Val> s; vector<size_t> allocas; };
struct State { vector<Frame> fr; vector<ObjP> mem; vector<Mask> dom; /*by sym id*/ vector<Expr*> pc; Mask coupled; vector<u64> model; /*by sym id*/ vector<int> order; /*sym ids in creation order*/ vector<std::pair<int,Val>> outs; u64 steps=0; bool expectPanic=false; u64 forks=0; set<int> reach; };
static const Mask& liveMask(int s){ return cur->dom[s]; }
struct PathEnd { string kind,msg; };
struct Violation { string kind,msg; int id; vector<std::pair<int,u64>> in; vector<u64> outs; };
static vector<State*> work; static vector<Violation> viols; static map<string,int> violCount;
static u64 nPaths=0,nAssume=0,nPanicOk=0,nForks=0,nSteps=0,nQuery=0,nSat=0,nUnsat=0,nAssertFold=0,nAssertSolver=0,nDomain=0,nCache=0; static double tSolver=0;
static map<int,u64> reachCount; static map<int,u64> assertCount; static vector<string> incon; static double tStart; 
static u64 maxPaths=200000,maxSteps=20000000,maxSamples=16; static double maxTime=300; static unsigned queryMs=20000; static bool firstOnly=false, cover=false; static string smtDir;
struct Sample { vector<std::pair<int,u64>> in; vector<u64> outs; bool panic; }; static vector<Sample> samples; static u64 sampleSeen=0;
static vector<std::pair<vector<std::pair<int,Mask>>,vector<Expr*>>> coverLeaves;

// --------------------------------------------------------------------- z3
static Z3_context zc; static Z3_solver zs; static Z3_sort bvs(int w){ return Z3_mk_bv_sort(zc,w); }
static Z3_ast zconst(u128 v,int w){ if(w<=64) return Z3_mk_unsigned_int64(zc,(u64)v,bvs(w)); Z3_ast hi=Z3_mk_unsigned_int64(zc,(u64)(v>>64),bvs(w-64)), lo=Z3_mk_unsigned_int64(zc,(u64)v,bvs(64)); return Z3_mk_concat(zc,hi,lo); }
static Z3_ast symAst(int id){ Sym&s=syms[id]; if(!s.z){ char b[32]; snprintf(b,32,"s%d",id); s.z=Z3_mk_const(zc,Z3_mk_string_symbol(zc,b),bvs(s.w)); Z3_inc_ref(zc,s.z);} return s.z; }
static Z3_ast zbool(Z3_ast b){ return Z3_mk_ite(zc,b,zconst(1,1),zconst(0,1)); }
static Z3_ast zt(Expr*e){ if(e->z) return e->z; Z3_ast r=nullptr; auto K=[&](int i){ return zt(e->k[i]); };
  switch(e->op){ case E_CONST: r=zconst(e->c,e->w); break; case E_SYM: r=symAst(e->aux); break;
   case E_TAB: { Sym&s=syms[e->aux]; map<u64,vector<int>> g; for(int i=0;i<(int)e->tab->size();i++) g[(*e->tab)[i]].push_back(i); // largest group is the default
     u64 best=0; size_t bn=0; for(auto&kv:g) if(kv.second.size()>bn){ bn=kv.second.size(); best=kv.first; }
     r=zconst(best,e->w); for(auto&kv:g) if(kv.first!=best){ vector<Z3_ast> o; for(int i:kv.second) o.push_back(Z3_mk_eq(zc,symAst(e->aux),zconst(s.lo+i,s.w))); Z3_ast c=o.size()==1?o[0]:Z3_mk_or(zc,o.size(),o.data()); r=Z3_mk_ite(zc,c,zconst(kv.first,e->w),r);} break; }
   case E_ADD:r=Z3_mk_bvadd(zc,K(0),K(1));break; case E_SUB:r=Z3_mk_bvsub(zc,K(0),K(1));break; case E_MUL:r=Z3_mk_bvmul(zc,K(0),K(1));break;
   case E_UDIV:r=Z3_mk_bvudiv(zc,K(0),K(1));break; case E_SDIV:r=Z3_mk_bvsdiv(zc,K(0),K(1));break; case E_UREM:r=Z3_mk_bvurem(zc,K(0),K(1));break; case E_SREM:r=Z3_mk_bvsrem(zc,K(0),K(1));break;
   case E_SHL:r=Z3_mk_bvshl(zc,K(0),K(1));break; case E_LSHR:r=Z3_mk_bvlshr(zc,K(0),K(1));break; case E_ASHR:r=Z3_mk_bvashr(zc,K(0),K(1));break;
   case E_AND:r=Z3_mk_bvand(zc,K(0),K(1));break; case E_OR:r=Z3_mk_bvor(zc,K(0),K(1));break; case E_XOR:r=Z3_mk_bvxor(zc,K(0),K(1));break;
   case E_EQ:r=zbool(Z3_mk_eq(zc,K(0),K(1)));break; case E_NE:r=zbool(Z3_mk_not(zc,Z3_mk_eq(zc,K(0),K(1))));break; case E_ULT:r=zbool(Z3_mk_bvult(zc,K(0),K(1)));break; case E_ULE:r=zbool(Z3_mk_bvule(zc,K(0),K(1)));break; case E_SLT:r=zbool(Z3_mk_bvslt(zc,K(0),K(1)));break; case E_SLE:r=zbool(Z3_mk_bvsle(zc,K(0),K(1)));break;
   case E_ITE:r=Z3_mk_ite(zc,Z3_mk_eq(zc,K(0),zconst(1,1)),K(1),K(2));break; case E_ZEXT:r=Z3_mk_zero_ext(zc,e->w-e->k[0]->w,K(0));break; case E_SEXT:r=Z3_mk_sign_ext(zc,e->w-e->k[0]->w,K(0));break;
   case E_EXTRACT:r=Z3_mk_extract(zc,e->aux+e->w-1,e->aux,K(0));break; case E_CONCAT:r=Z3_mk_concat(zc,K(0),K(1));break; default: die("zt"); }
  Z3_inc_ref(zc,r); e->z=r; return r; }
static Z3_ast domAst(int sym,const Mask&m){ Sym&s=syms[sym]; if(s.n==0) return nullptr; vector<Z3_ast> o; int n=m.count(); if(n==s.n&&s.w<63&&(u64)s.n==(1ull<<s.w)) return nullptr;
  if(n==s.n){ Z3_ast x=symAst(sym); Z3_ast a=Z3_mk_bvuge(zc,x,zconst(s.lo,s.w)),b=Z3_mk_bvule(zc,x,zconst(s.lo+s.n-1,s.w)); Z3_ast ab[2]={a,b}; return Z3_mk_and(zc,2,ab);} 
  for(int i=0;i<s.n;i++) if(m.get(i)) o.push_back(Z3_mk_eq(zc,symAst(sym),zconst(s.lo+i,s.w))); return o.size()==1?o[0]:Z3_mk_or(zc,o.size(),o.data()); }
static u128 evalE(Expr*e,const vector<u64>&m,std::unordered_map<Expr*,u128>&memo){ switch(e->op){ case E_CONST:return e->c; case E_SYM: return trunc(m[e->aux],e->w); case E_TAB: { u64 i=m[e->aux]-syms[e->aux].lo; if(i>=e->tab->size()) i=0; return (*e->tab)[i]; } default:; }
  auto it=memo.find(e); if(it!=memo.end()) return it->second; u128 r; auto K=[&](int i){ return evalE(e->k[i],m,memo); };
  switch(e->op){ case E_ITE: r=K(0)?K(1):K(2); break; case E_ZEXT:r=K(0);break; case E_SEXT:r=trunc((u128)sx(K(0),e->k[0]->w),e->w);break; case E_EXTRACT:r=trunc(K(0)>>e->aux,e->w);break; case E_CONCAT:r=(K(0)<<e->k[1]->w)|K(1);break;
   case E_UDIV:case E_UREM:case E_SDIV:case E_SREM: { u128 b=K(1); if(!b){ r= e->op==E_UDIV?maskw(e->w): e->op==E_SDIV? (sx(K(0),e->w)<0?1:maskw(e->w)) : K(0); break;} }
   // fallthrough
   default: r=evalBin(e->op,e->k[0]->w,K(0),K(1)); }
  memo[e]=r; return r; }
static u128 evalModel(State&S,Expr*e){ std::unordered_map<Expr*,u128> memo; return evalE(e,S.model,memo); }
enum Res{ R_UNSAT=0,R_SAT=1,R_UNK=2 };
static std::unordered_map<string,int> qcache; static u64 smtN=0;
// is PC(S) and all of `extra` (width-1 exprs that must be 1) satisfiable?  On sat, *out gets a full model.
static Res solve(State&S,const vector<Expr*>&extra,vector<u64>*out){ // slice by shared symbols
  Mask rel; for(auto e:extra) rel=rel|e->ids; vector<Expr*> sel; vector<char> used(S.pc.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<S.pc.size();i++) if(!used[i]&&!(S.pc[i]->ids&rel).none()){ used[i]=1; rel=rel|S.pc[i]->ids; sel.push_back(S.pc[i]); ch=true; } }
  string key; if(!out){ vector<Expr*> ks(sel); ks.insert(ks.end(),extra.begin(),extra.end()); std::sort(ks.begin(),ks.end()); ks.erase(std::unique(ks.begin(),ks.end()),ks.end()); key.assign((char*)ks.data(),ks.size()*sizeof(Expr*)); for(int i=0;i<(int)syms.size();i++) if(rel.get(i)&&i<(int)S.dom.size()&&syms[i].n) key.append((char*)&S.dom[i],32); auto it=qcache.find(key); if(it!=qcache.end()){ nCache++; return (Res)it->second; } }
  double t0=now(); Z3_solver_push(zc,zs); for(auto e:sel) Z3_solver_assert(zc,zs,Z3_mk_eq(zc,zt(e),zconst(1,1))); for(auto e:extra) Z3_solver_assert(zc,zs,Z3_mk_eq(zc,zt(e),zconst(1,1)));
  for(int i=0;i<(int)syms.size();i++) if(rel.get(i)&&syms[i].n){ Z3_ast d=domAst(i,S.dom[i]); if(d) Z3_solver_assert(zc,zs,d);} 
  if(!smtDir.empty()&&smtN<400){ std::ofstream o(smtDir+"/q"+std::to_string(smtN++)+".smt2"); o<<"(set-logic QF_BV)\n"<<Z3_solver_to_string(zc,zs)<<"(check-sat)\n"; }
  Z3_lbool r=Z3_solver_check(zc,zs); nQuery++; Res res=R_UNK; if(r==Z3_L_FALSE){ res=R_UNSAT; nUnsat++; } else if(r==Z3_L_TRUE){ res=R_SAT; nSat++; if(out){ *out=S.model; Z3_model m=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,m); for(int i=0;i<(int)syms.size();i++) if(rel.get(i)){ Z3_ast v; if(Z3_model_eval(zc,m,symAst(i),true,&v)){ uint64_t u; if(Z3_get_numeral_uint64(zc,v,&u)) (*out)[i]=u; } } Z3_model_dec_ref(zc,m);} }
  Z3_solver_pop(zc,zs,1); tSolver+=now()-t0; if(!out&&res!=R_UNK){ if(qcache.size()>200000) qcache.clear(); qcache[key]=res; } return res; }

// -------------------------------------------------------------- narrowing
static Val narrowRec(Expr*e,std::unordered_map<Expr*,Val>&memo){ if(e->op==E_CONST) return Val(e->c); if(e->op==E_SYM) return Val(0,e); if(e->op==E_TAB){ vector<u64> v(*e->tab); return mkTab(e->aux,e->w,v);} auto it=memo.find(e); if(it!=memo.end()) return it->second; Val r; auto K=[&](int i){ return narrowRec(e->k[i],memo); };
  switch(e->op){ case E_ITE:{ Val c=K(0); if(!c.e) r=c.c?K(1):K(2); else r=mkIte(c,K(1),K(2),e->w); break;} case E_ZEXT:r=mkZext(K(0),e->k[0]->w,e->w);break; case E_SEXT:r=mkSext(K(0),e->k[0]->w,e->w);break; case E_EXTRACT:r=mkExtract(K(0),e->k[0]->w,e->aux,e->w);break; case E_CONCAT:r=mkConcat(K(0),e->k[0]->w,K(1),e->k[1]->w);break; 
   case E_AND: case E_OR: if(e->w==1){ Val a=K(0); if(!a.e){ if(e->op==E_AND) r=a.c?K(1):Val(0); else r=a.c?Val(1):K(1); } else r=mkBin(e->op,1,a,K(1)); break; }
   // fallthrough
   default: r=mkBin(e->op,e->k[0]->w,K(0),K(1)); }
  memo[e]=r; return r; }
static Val narrow(const Val&v){ if(!v.e) return v; if(v.e->op==E_TAB){ vector<u64> t(*v.e->tab); return mkTab(v.e->aux,v.e->w,t);} if(v.e->op==E_SYM) return v; std::unordered_map<Expr*,Val> memo; return narrowRec(v.e,memo); }

struct Infeasible{}; struct EndPath{ string kind,msg; int id; };
// Add constraint e (width 1) as true.  The caller guarantees it is satisfiable together with the pc and the model satisfies it.
static void addTrue(State&S,Expr*e){ if(e->op==E_CONST){ if(!e->c) die("adding false"); return; }
  if(e->op==E_TAB){ Mask m; for(int i=0;i<(int)e->tab->size();i++) if((*e->tab)[i]) m.set(i); S.dom[e->aux]=S.dom[e->aux]&m; if(S.dom[e->aux].none()) die("empty domain in addTrue"); return; }
  if(e->op==E_AND&&e->w==1){ addTrue(S,e->k[0]); addTrue(S,e->k[1]); return; }
  if(e->op==E_XOR&&e->k[1]->op==E_CONST){ Expr*x=e->k[0]; if(x->op==E_OR&&x->w==1){ State*sv=cur; cur=&S; Val a=mkNot(fromE(x->k[0])),b=mkNot(fromE(x->k[1])); cur=sv; if(a.e) addTrue(S,a.e); if(b.e) addTrue(S,b.e); return; } }
  S.pc.push_back(e); S.coupled=S.coupled|e->ids; }
static Expr* notE(State&S,Expr*e){ State*sv=cur; cur=&S; Val r=mkNot(fromE(e)); cur=sv; return toE(r,1); }
// Split S on a symbolic boolean.  Returns for both outcomes whether feasible; models in mt/mf.
static void feas(State&S,Expr*c,bool&ft,bool&ff,vector<u64>&mt,vector<u64>&mf){ 
  if(c->op==E_TAB&&!S.coupled.get(c->aux)){ int s=c->aux; int it=-1,iff=-1; int mv=(int)(S.model[s]-syms[s].lo); for(int i=0;i<(int)c->tab->size();i++) if(S.dom[s].get(i)){ if((*c->tab)[i]){ if(it<0||i==mv) it=i; } else { if(iff<0||i==mv) iff=i; } } nDomain++; ft=it>=0; ff=iff>=0; mt=mf=S.model; if(ft) mt[s]=syms[s].lo+it; if(ff) mf[s]=syms[s].lo+iff; return; }
  bool mv=evalModel(S,c)!=0; Expr*other=mv?notE(S,c):c; vector<u64> om; Res r=solve(S,{other},&om); if(r==R_UNK) throw EndPath{"inconclusive","solver timeout on branch",0};
  if(mv){ ft=true; mt=S.model; ff=r==R_SAT; mf=om; } else { ff=true; mf=S.model; ft=r==R_SAT; mt=om; } }
static State* forkState(State&S){ nForks++; State*n=new State(S); n->forks++; return n; }

// ----------------------------------------------------------------- memory
static Obj& objFor(State&S,u64 a,u64 n,bool wr){ size_t i=addrIdx(a); if(a<SLOTSZ||i>=S.mem.size()||!S.mem[i]) { char b[96]; snprintf(b,96,"wild pointer 0x%llx",(unsigned long long)a); throw EndPath{"memory",b,0}; } Obj*o=S.mem[i].get(); u64 off=a-o->base; if(o->dead) throw EndPath{"memory","use after free",0}; if(off+n>o->size) throw EndPath{"memory","out-of-bounds access",0}; if(wr){ if(o->ro) throw EndPath{"memory","write to constant",0}; if(S.mem[i].use_count()>1){ S.mem[i]=std::make_shared<Obj>(*o); o=S.mem[i].get(); } } return *o; }
static u64 allocObj(State&S,u64 size,bool heap,int fill){ if(size>=SLOTSZ) throw EndPath{"limit","allocation too large",0}; auto o=std::make_shared<Obj>(); o->base=newAddr(S.mem.size()); o->size=size; o->heap=heap; o->b.assign(size,fill); S.mem.push_back(o); return o->base; }
static Val loadC(State&S,u64 a,int bits){ int n=(bits+7)/8; Obj&o=objFor(S,a,n,false); u64 off=a-o.base; if(!o.s.empty()){ bool any=false; for(int i=0;i<n;i++) if(o.s[off+i].e){ any=true; break; }
    if(any){ Expr*e=o.s[off].e; bool same=e!=nullptr; int k0=o.s[off].k; for(int i=0;i<n&&same;i++) if(o.s[off+i].e!=e||o.s[off+i].k!=k0+i) same=false; 
      if(same){ int avail=e->w-8*k0; if(avail>=bits) return mkExtract(fromE(e),e->w,8*k0,bits); return mkZext(mkExtract(fromE(e),e->w,8*k0,avail),avail,bits); }
      Val r; int w=0; for(int i=0;i<n;i++){ Val b; Cell&c=o.s[off+i]; if(c.e){ int av=c.e->w-8*c.k; if(av>=8) b=mkExtract(fromE(c.e),c.e->w,8*c.k,8); else b=mkZext(mkExtract(fromE(c.e),c.e->w,8*c.k,av),av,8);} else b=Val(o.b[off+i]); if(i==0){ r=b; w=8; } else { r=mkConcat(b,8,r,w); w+=8; } } return mkExtract(r,w,0,bits); } }
  u128 v=0; for(int i=n-1;i>=0;i--) v=(v<<8)|o.b[off+i]; return Val(trunc(v,bits)); }
static void storeC(State&S,u64 a,const Val&v,int bits){ int n=(bits+7)/8; Obj&o=objFor(S,a,n,true); u64 off=a-o.base; if(v.e){ if(o.s.empty()) o.s.assign(o.size,Cell{nullptr,0}); for(int i=0;i<n;i++) o.s[off+i]={v.e,(uint8_t)i}; } else { for(int i=0;i<n;i++) o.b[off+i]=(uint8_t)(v.c>>(8*i)); if(!o.s.empty()) for(int i=0;i<n;i++) o.s[off+i].e=nullptr; } }

// fork S so that e takes each of its feasible values; S continues with one of them (returned), others are queued to re-execute the current instruction
static Expr* tabLeaf(Expr*e){ if(e->op==E_TAB) return e; for(int i=0;i<3;i++) if(e->k[i]){ Expr*r=tabLeaf(e->k[i]); if(r) return r; } return nullptr; }
static u128 concretize(State&S,Val v,int w,size_t limit){ v=narrow(v); if(!v.e) return v.c;
  // an expression over several small-domain symbols: fix its table leaves one at a time, which keeps the path condition a product of domains
  while(v.e->op!=E_TAB){ Expr*l=tabLeaf(v.e); if(!l||S.coupled.get(l->aux)) break; concretize(S,Val(0,l),l->w,limit); v=narrow(v); if(!v.e) return v.c; }
  Expr*e=v.e; size_t n=0;
  for(;;){ u128 k=evalModel(S,e); Val eq=mkBin(E_EQ,w,v,Val(k)); if(!eq.e){ if(eq.c) return k; die("concretize"); }
    bool ft,ff; vector<u64> mt,mf; feas(S,eq.e,ft,ff,mt,mf); if(!ft) die("concretize infeasible"); if(ff){ if(++n>limit) throw EndPath{"limit","too many values for a symbolic address/size",0}; State*o=forkState(S); o->model=mf; addTrue(*o,notE(*o,eq.e)); work.push_back(o); }
    S.model=mt; addTrue(S,eq.e); return k; } }

static void tighten(State&S,int sym){ if(!S.coupled.get(sym)||!syms[sym].n) return; Mask m=S.dom[sym]; int mv=(int)(S.model[sym]-syms[sym].lo); for(int i=0;i<syms[sym].n;i++) if(m.get(i)&&i!=mv){ vector<u64> t(syms[sym].n,0); t[i]=1; Val q=mkTab(sym,1,t); if(!q.e) continue; Res r=solve(S,{q.e},nullptr); if(r==R_UNK) throw EndPath{"inconclusive","solver timeout on domain",0}; if(r==R_UNSAT) S.dom[sym].clr(i); } }
static bool tabAddr(State&S,Val&v,vector<std::pair<u64,Mask>>&groups){ if(v.e->op!=E_TAB) return false; if(S.coupled.get(v.e->aux)){ tighten(S,v.e->aux); v=narrow(v); if(!v.e) return false; } const Mask&m=liveMask(v.e->aux); map<u64,Mask> g; for(int i=0;i<(int)v.e->tab->size();i++) if(m.get(i)) g[(*v.e->tab)[i]].set(i); for(auto&kv:g) groups.push_back({kv.first,kv.second}); return true; }
static Val loadV(State&S,Val a,int bits){ if(a.e) a=narrow(a); if(!a.e) return loadC(S,(u64)a.c,bits);
  vector<std::pair<u64,Mask>> g; bool ta=tabAddr(S,a,g); if(!a.e) return loadC(S,(u64)a.c,bits); if(ta){ int s=a.e->aux; bool allc=bits<=64; vector<Val> vs; for(auto&x:g){ vs.push_back(loadC(S,x.first,bits)); if(vs.back().e) allc=false; }
    if(allc){ vector<u64> r(syms[s].n,0); for(size_t i=0;i<g.size();i++) for(int j=0;j<syms[s].n;j++) if(g[i].second.get(j)) r[j]=(u64)vs[i].c; return mkTab(s,bits,r); }
    Val r=vs[0]; for(size_t i=1;i<g.size();i++){ vector<u64> cv(syms[s].n,0); for(int j=0;j<syms[s].n;j++) cv[j]=g[i].second.get(j); r=mkIte(mkTab(s,1,cv),vs[i],r,bits);} return r; }
  u128 k=concretize(S,a,64,64); return loadC(S,(u64)k,bits); }
static void storeV(State&S,Val a,const Val&v,int bits){ if(a.e) a=narrow(a); if(!a.e){ storeC(S,(u64)a.c,v,bits); return; }
  vector<std::pair<u64,Mask>> g; bool ta=tabAddr(S,a,g); if(!a.e){ storeC(S,(u64)a.c,v,bits); return; } if(ta&&g.size()<=32){ int s=a.e->aux; for(auto&x:g){ vector<u64> cv(syms[s].n,0); for(int j=0;j<syms[s].n;j++) cv[j]=x.second.get(j); Val old=loadC(S,x.first,bits); storeC(S,x.first,mkIte(mkTab(s,1,cv),v,old,bits),bits);} return; }
  u128 k=concretize(S,a,64,64); storeC(S,(u64)k,v,bits); }
static void copyMem(State&S,u64 d,u64 s,u64 n){ if(!n) return; Obj&so=objFor(S,s,n,false); ObjP keep=S.mem[addrIdx(s)]; Obj&dob=objFor(S,d,n,true); u64 sof=s-so.base,dof=d-dob.base; const Obj&src=*keep; (void)so;
  vector<uint8_t> tmp(src.b.begin()+sof,src.b.begin()+sof+n); vector<Cell> tc; bool any=false; if(!src.s.empty()){ tc.assign(src.s.begin()+sof,src.s.begin()+sof+n); for(auto&c:tc) if(c.e){ any=true; break; } }
  std::copy(tmp.begin(),tmp.end(),dob.b.begin()+dof); if(any){ if(dob.s.empty()) dob.s.assign(dob.size,Cell{nullptr,0}); std::copy(tc.begin(),tc.end(),dob.s.begin()+dof);} else if(!dob.s.empty()) for(u64 i=0;i<n;i++) dob.s[dof+i].e=nullptr; }

// --------------------------------------------------------------- symbols API
static vector<std::pair<int,u64>> inputsOf(State&S,const vector<u64>&m){ vector<std::pair<int,u64>> r; for(int id:S.order) r.push_back({id,m[id]}); return r; }
static vector<u64> outsOf(State&S,const vector<u64>&m){ vector<u64> r; for(auto&o:S.outs){ if(o.second.e){ std::unordered_map<Expr*,u128> memo; r.push_back((u64)evalE(o.second.e,m,memo)); } else r.push_back((u64)o.second.c);} return r; }
static void report(State&S,const string&kind,const string&msg,int id,const vector<u64>&m){ string k=kind+"#"+std::to_string(id)+"#"+msg; if(violCount[k]++<3&&viols.size()<60) viols.push_back({kind,msg,id,inputsOf(S,m),outsOf(S,m)}); }
static Val newSym(State&S,int w,u64 lo,int n){ int ord=S.order.size(); int id=internSym(ord,w,lo,n); if((int)S.dom.size()<=id){ S.dom.resize(id+1); S.model.resize(id+1,0);} S.order.push_back(id); S.dom[id]=n?fullMask(n):Mask(); S.model[id]=lo; if(n==0) return Val(0,[&]{ Expr t{}; t.op=E_SYM;t.w=w;t.aux=id;t.c=0;t.k[0]=t.k[1]=t.k[2]=nullptr;t.tab=nullptr; return intern(t);}()); vector<u64> v(n); for(int i=0;i<n;i++) v[i]=lo+i; return mkTab(id,w,v); }
static void endPath(State&S,const string&kind,const string&msg,int id){ if(kind=="ok"||kind=="panic_ok"){ nPaths++; if(kind=="panic_ok") nPanicOk++; for(int r:S.reach) reachCount[r]++; sampleSeen++; if(samples.size()<maxSamples) samples.push_back({inputsOf(S,S.model),outsOf(S,S.model),kind=="panic_ok"}); else { u64 j=(sampleSeen*6364136223846793005ull>>20)%sampleSeen; if(j<maxSamples) samples[j]={inputsOf(S,S.model),outsOf(S,S.model),kind=="panic_ok"}; } }
  else if(kind=="assume"){ nAssume++; }
  else if(kind=="limit"||kind=="inconclusive"||kind=="error"){ if(kind=="limit"&&(msg=="step limit"||msg=="allocation too large"||msg=="call depth")){ nPaths++; report(S,"nontermination",msg,id,S.model);} else if(incon.size()<40) incon.push_back(kind+": "+msg); else incon.back()="... more"; }
  else { nPaths++; report(S,kind,msg,id,S.model); }
  if(cover){ vector<std::pair<int,Mask>> d; for(int i:S.order) if(syms[i].n) d.push_back({i,S.dom[i]}); coverLeaves.push_back({d,S.pc}); } }

// --------------------------------------------------------------- executor
static bool endsWith(const string&s,const char*t){ size_t n=strlen(t); return s.size()>=n&&s.compare(s.size()-n,n,t)==0; }
enum Intr { I_NONE=-1,I_UNKNOWN=0,I_NOP,I_MEMCPY,I_MEMSET,I_USUBSAT,I_UADDSAT,I_SADDO,I_UADDO,I_SSUBO,I_USUBO,I_SMULO,I_UMULO,I_UMAX,I_UMIN,I_SMAX,I_SMIN,I_ABS,I_CTPOP,I_CTLZ,I_CTTZ,I_BSWAP,I_FSHL,I_FSHR,I_EXPECT,I_LOADREL,I_TRAP,I_UCMP,I_SCMP,I_ALLOC,I_ALLOCZ,I_REALLOC,I_DEALLOC,I_MEMCMP,I_S8,I_S16,I_S32,I_S64,I_SBOOL,I_SRANGE,I_ASSUME,I_ASSERT,I_REACH,I_OUT,I_EXPPANIC,I_CONC,I_PTRMASK };
static int classify(const string&n){ auto sw=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(sw("sym_")){ if(n=="sym_u8") return I_S8; if(n=="sym_u16") return I_S16; if(n=="sym_u32") return I_S32; if(n=="sym_u64") return I_S64; if(n=="sym_bool") return I_SBOOL; if(n=="sym_range") return I_SRANGE; if(n=="sym_assume") return I_ASSUME; if(n=="sym_assert") return I_ASSERT; if(n=="sym_reach") return I_REACH; if(n=="sym_out") return I_OUT; if(n=="sym_expect_panic") return I_EXPPANIC; if(n=="sym_concretize") return I_CONC; return I_UNKNOWN; }
  if(sw("llvm.")){ if(sw("llvm.lifetime")||sw("llvm.assume")||sw("llvm.dbg")||sw("llvm.experimental.noalias")||sw("llvm.invariant")||sw("llvm.donothing")||sw("llvm.prefetch")) return I_NOP; if(sw("llvm.memcpy")||sw("llvm.memmove")) return I_MEMCPY; if(sw("llvm.memset")) return I_MEMSET; if(sw("llvm.usub.sat")) return I_USUBSAT; if(sw("llvm.uadd.sat")) return I_UADDSAT; if(sw("llvm.sadd.with")) return I_SADDO; if(sw("llvm.uadd.with")) return I_UADDO; if(sw("llvm.ssub.with")) return I_SSUBO; if(sw("llvm.usub.with")) return I_USUBO; if(sw("llvm.smul.with")) return I_SMULO; if(sw("llvm.umul.with")) return I_UMULO; if(sw("llvm.umax")) return I_UMAX; if(sw("llvm.umin")) return I_UMIN; if(sw("llvm.smax")) return I_SMAX; if(sw("llvm.smin")) return I_SMIN; if(sw("llvm.abs")) return I_ABS; if(sw("llvm.ctpop")) return I_CTPOP; if(sw("llvm.ctlz")) return I_CTLZ; if(sw("llvm.cttz")) return I_CTTZ; if(sw("llvm.bswap")) return I_BSWAP; if(sw("llvm.fshl")) return I_FSHL; if(sw("llvm.fshr")) return I_FSHR; if(sw("llvm.expect")) return I_EXPECT; if(sw("llvm.load.relative")) return I_LOADREL; if(sw("llvm.trap")||sw("llvm.ubsantrap")) return I_TRAP; if(sw("llvm.ucmp")) return I_UCMP; if(sw("llvm.scmp")) return I_SCMP; if(sw("llvm.ptrmask")) return I_PTRMASK; return I_UNKNOWN; }
  if(endsWith(n,"___rust_alloc")) return I_ALLOC; if(endsWith(n,"___rust_alloc_zeroed")) return I_ALLOCZ; if(endsWith(n,"___rust_realloc")) return I_REALLOC; if(endsWith(n,"___rust_dealloc")) return I_DEALLOC; if(n.find("___rust_no_alloc_shim")!=string::npos) return I_NOP;
  if(n=="memcmp"||n=="bcmp") return I_MEMCMP; if(n=="memcpy"||n=="memmove") return I_MEMCPY; if(n=="memset") return I_MEMSET; if(n=="abort") return I_TRAP;
  return I_UNKNOWN; }
static Val get(Frame&F,const Leaf&l){ return l.slot<0? l.v: F.s[l.slot]; }
static void pushFrame(State&S,Func*f,const vector<Val>&args){ if(S.fr.size()>400) throw EndPath{"limit","call depth",0}; S.fr.emplace_back(); Frame&F=S.fr.back(); F.f=f; F.bb=0; F.ip=0; F.prev=-1; F.s.assign(f->nslots,Val()); size_t k=0; for(size_t i=0;i<f->params.size();i++){ int n=nleaves(f->params[i]); for(int j=0;j<n;j++) { if(k<args.size()) F.s[f->paramSlot[i]+j]=args[k]; k++; } } }
static void jump(State&S,Frame&F,int to){ (void)S; Block&B=F.f->bb[to]; int from=F.bb; if(B.nphi){ static vector<Val> tmp; tmp.clear(); for(int i=0;i<B.nphi;i++){ Instr&I=B.ins[i]; bool ok=false; for(auto&ph:I.phi) if(ph.first==from){ for(auto&l:ph.second) tmp.push_back(get(F,l)); ok=true; break; } if(!ok) die("phi without incoming"); } size_t k=0; for(int i=0;i<B.nphi;i++){ Instr&I=B.ins[i]; for(int j=0;j<I.nd;j++) F.s[I.dst+j]=tmp[k++]; } } F.prev=from; F.bb=to; F.ip=B.nphi; }
static string cstrAt(State&S,u64 p,u64 n){ try{ if(n>300) n=300; Obj&o=objFor(S,p,n,false); u64 off=p-o.base; return string((char*)o.b.data()+off,n); } catch(...){ return ""; } }
static void doPanic(State&S,const string&fn,const vector<Val>&a){ string msg=fn; if(a.size()>=2&&!a[0].e&&!a[1].e&&(u64)a[1].c<300){ string s=cstrAt(S,(u64)a[0].c,(u64)a[1].c); bool pr=!s.empty(); for(char c:s) if((unsigned char)c<9) pr=false; if(pr) msg+=": "+s; }
  if(fn.find("panic_fmt")!=string::npos&&!a.empty()&&!a[0].e){ u64 len=a.size()>1&&!a[1].e?(u64)a[1].c>>1:0; string s=len?cstrAt(S,(u64)a[0].c,len):""; if(!s.empty()) msg+=": "+s; }
  if(S.expectPanic) throw EndPath{"panic_ok",msg,0}; throw EndPath{"panic",msg,0}; }
static Val ov(int kind,int w,const Val&a,const Val&b,Val&o){ bool sg=kind==I_SADDO||kind==I_SSUBO||kind==I_SMULO; EOp op=(kind==I_SADDO||kind==I_UADDO)?E_ADD:(kind==I_SSUBO||kind==I_USUBO)?E_SUB:E_MUL; Val r=mkBin(op,w,a,b); if(op==E_ADD&&!sg){ o=mkBin(E_ULT,w,r,a); return r; } if(op==E_SUB&&!sg){ o=mkBin(E_ULT,w,a,b); return r; }
  int ew=op==E_MUL?2*w:w+1; if(ew>128){ if(!a.e&&!b.e){ // 64x64 fits in 128
      ew=128; } else throw EndPath{"error","wide overflow op",0}; } Val ea=sg?mkSext(a,w,ew):mkZext(a,w,ew), eb=sg?mkSext(b,w,ew):mkZext(b,w,ew); Val er=mkBin(op,ew,ea,eb); Val back=sg?mkSext(mkExtract(er,ew,0,w),w,ew):mkZext(mkExtract(er,ew,0,w),w,ew); o=mkBin(E_NE,ew,er,back); return r; }
static bool branchOn(State&S,Val c){ // returns chosen direction; queues the other
  c=narrow(c); if(!c.e) return c.c!=0; bool ft,ff; vector<u64> mt,mf; feas(S,c.e,ft,ff,mt,mf); if(ft&&ff){ State*o=forkState(S); o->model=mf; addTrue(*o,notE(*o,c.e)); work.push_back(o); S.model=mt; addTrue(S,c.e); return true; } if(ft){ S.model=mt; return true; } S.model=mf; return false; }

static bool intrinsic(State&S,Frame&F,Instr&I,int id,const string&name){ // true if handled
  auto A=[&](int i){ return get(F,I.args[i][0]); }; auto W=[&](int i){ return I.argbits[i]; }; auto ret=[&](Val v){ if(I.dst>=0) F.s[I.dst]=v; };
  auto lanes=[&](std::function<Val(Val,Val)> fn){ for(int j=0;j<I.nd;j++){ Val r=fn(get(F,I.args[0][j]),I.args.size()>1&&(int)I.args[1].size()>j?get(F,I.args[1][j]):Val()); if(I.dst>=0) F.s[I.dst+j]=r; } };
  auto conc=[&](int i){ return (u64)concretize(S,A(i),W(i),64); };
  switch(id){ case I_NOP: return true;
   case I_MEMCPY: { u64 n=conc(2); u64 d=conc(0),s=conc(1); if(n) copyMem(S,d,s,n); if(I.nd) ret(Val(d)); return true; }
   case I_MEMSET: { u64 n=conc(2); u64 d=conc(0); Val v=A(1); if(I.argbits[1]!=8) v=mkExtract(v,I.argbits[1],0,8); if(n){ objFor(S,d,n,true); for(u64 i=0;i<n;i++) storeC(S,d+i,v,8);} if(I.nd) ret(Val(d)); return true; }
   case I_USUBSAT: lanes([&](Val a,Val b){ int w=W(0); return mkIte(mkBin(E_ULT,w,a,b),Val(0),mkBin(E_SUB,w,a,b),w);}); return true;
   case I_UADDSAT: lanes([&](Val a,Val b){ int w=W(0); Val s=mkBin(E_ADD,w,a,b); return mkIte(mkBin(E_ULT,w,s,a),Val(maskw(w)),s,w);}); return true;
   case I_SADDO:case I_UADDO:case I_SSUBO:case I_USUBO:case I_SMULO:case I_UMULO: { if(I.nd!=2) return false; Val o; Val r=ov(id,W(0),A(0),A(1),o); if(I.dst>=0){ F.s[I.dst]=r; F.s[I.dst+1]=o; } return true; }
   case I_UMAX: lanes([&](Val a,Val b){ int w=W(0); return mkIte(mkBin(E_ULT,w,a,b),b,a,w);}); return true;
   case I_UMIN: lanes([&](Val a,Val b){ int w=W(0); return mkIte(mkBin(E_ULT,w,a,b),a,b,w);}); return true;
   case I_SMAX: lanes([&](Val a,Val b){ int w=W(0); return mkIte(mkBin(E_SLT,w,a,b),b,a,w);}); return true;
   case I_SMIN: lanes([&](Val a,Val b){ int w=W(0); return mkIte(mkBin(E_SLT,w,a,b),a,b,w);}); return true;
   case I_ABS: { int w=W(0); Val a=A(0); ret(mkIte(mkBin(E_SLT,w,a,Val(0)),mkBin(E_SUB,w,Val(0),a),a,w)); return true; }
   case I_UCMP:case I_SCMP: { int w=W(0); Val a=A(0),b=A(1); int rw=I.ty->bits; EOp lt=id==I_UCMP?E_ULT:E_SLT; ret(mkIte(mkBin(lt,w,a,b),Val(maskw(rw)),mkIte(mkBin(lt,w,b,a),Val(1),Val(0),rw),rw)); return true; }
   case I_CTPOP: { int w=W(0); Val a=A(0); Val r(0); for(int i=0;i<w;i++) r=mkBin(E_ADD,w,r,mkZext(mkExtract(a,w,i,1),1,w)); ret(r); return true; }
   case I_CTTZ: { int w=W(0); Val a=A(0); Val r((u128)w); for(int i=w-1;i>=0;i--) r=mkIte(mkExtract(a,w,i,1),Val(i),r,w); ret(r); return true; }
   case I_CTLZ: { int w=W(0); Val a=A(0); Val r((u128)w); for(int i=0;i<w;i++) r=mkIte(mkExtract(a,w,i,1),Val(w-1-i),r,w); ret(r); return true; }
   case I_BSWAP: { int w=W(0); Val a=A(0); Val r; int cw=0; for(int i=0;i<w/8;i++){ Val b=mkExtract(a,w,8*(w/8-1-i),8); if(!i){ r=b; cw=8; } else { r=mkConcat(b,8,r,cw); cw+=8; } } ret(r); return true; }
   case I_FSHL:case I_FSHR: { int w=W(0); Val a=A(0),b=A(1); u64 s=conc(2)%w; if(id==I_FSHR) s=(w-s)%w; if(s==0){ ret(id==I_FSHL?a:b); return true; } ret(mkBin(E_OR,w,mkBin(E_SHL,w,a,Val(s)),mkBin(E_LSHR,w,b,Val(w-s)))); return true; }
   case I_EXPECT: ret(A(0)); return true;
   case I_PTRMASK: ret(mkBin(E_AND,64,A(0),A(1))); return true;
   case I_LOADREL: { Val p=A(0); Val ad=mkBin(E_ADD,64,p,A(1)); Val v=loadV(S,ad,32); ret(mkBin(E_ADD,64,p,mkSext(v,32,64))); return true; }
   case I_TRAP: doPanic(S,name,{}); return true;
   case I_ALLOC: { u64 n=conc(0); ret(Val(allocObj(S,n,true,0xA5))); return true; }
   case I_ALLOCZ: { u64 n=conc(0); ret(Val(allocObj(S,n,true,0))); return true; }
   case I_REALLOC: { u64 p=conc(0),on=conc(1),nn=conc(3); u64 q=allocObj(S,nn,true,0xA5); copyMem(S,q,p,std::min(on,nn)); { Obj&o=objFor(S,p,0,true); o.dead=true; } ret(Val(q)); return true; }
   case I_DEALLOC: { u64 p=conc(0); Obj&o=objFor(S,p,0,true); if(!o.heap||o.base!=p) throw EndPath{"memory","bad free",0}; o.dead=true; o.b.clear(); o.b.shrink_to_fit(); o.s.clear(); o.s.shrink_to_fit(); return true; }
   case I_MEMCMP: { u64 n=conc(2); u64 p=conc(0),q=conc(1); Val r(0); for(i64 i=(i64)n-1;i>=0;i--){ Val a=loadC(S,p+i,8),b=loadC(S,q+i,8); Val d=mkIte(mkBin(E_ULT,8,a,b),Val(maskw(32)),Val(1),32); r=mkIte(mkBin(E_EQ,8,a,b),r,d,32);} ret(r); return true; }
   case I_S8: ret(newSym(S,8,0,256)); return true; case I_S16: ret(newSym(S,16,0,0)); return true; case I_S32: ret(newSym(S,32,0,0)); return true; case I_S64: ret(newSym(S,64,0,0)); return true; case I_SBOOL: ret(newSym(S,1,0,2)); return true;
   case I_SRANGE: { u64 n=conc(0); if(n==0||n>256) die("sym_range"); if(n==1){ /* still a symbol for replay alignment */ newSym(S,32,0,1); ret(Val(0)); } else ret(newSym(S,32,0,(int)n)); return true; }
   case I_ASSUME: { Val c=narrow(A(0)); if(!c.e){ if(!c.c) throw EndPath{"assume","",0}; return true; } bool ft,ff; vector<u64> mt,mf; feas(S,c.e,ft,ff,mt,mf); if(cover&&ff){ State*o=new State(S); o->model=mf; addTrue(*o,notE(*o,c.e)); endPath(*o,"assume","",0); delete o; } if(!ft) throw EndPath{"assume","",0}; S.model=mt; addTrue(S,c.e); return true; }
   case I_ASSERT: { int aid=(int)A(1).c; assertCount[aid]++; Val c=narrow(A(0)); if(!c.e){ nAssertFold++; if(!c.c) throw EndPath{"assert","assertion",aid}; return true; } nAssertSolver++; vector<u64> m; Expr*neg=notE(S,c.e); Res r=solve(S,{neg},&m); if(r==R_UNK) throw EndPath{"inconclusive","solver timeout on assertion",aid}; if(r==R_UNSAT) return true; report(S,"assert","assertion",aid,m); bool ft,ff; vector<u64> mt,mf; feas(S,c.e,ft,ff,mt,mf); if(!ft) throw EndPath{"assume","",0}; S.model=mt; addTrue(S,c.e); return true; }
   case I_REACH: { S.reach.insert((int)A(0).c); return true; }
   case I_OUT: { Val v=A(0); S.outs.push_back({W(0),v}); return true; }
   case I_EXPPANIC: { Val v=A(0); S.expectPanic=v.c!=0; return true; }
   case I_CONC: { ret(Val(concretize(S,A(0),W(0),300))); return true; }
   default: return false; } }

static void run(State*SP){ State&S=*SP; cur=&S; 
 try{ for(;;){ Frame&F=S.fr.back(); Instr&I=F.f->bb[F.bb].ins[F.ip]; if(++S.steps>maxSteps) throw EndPath{"limit","step limit",0}; nSteps++; F.f->steps++; if((nSteps&0xffff)==0&&now()-tStart>maxTime) throw EndPath{"inconclusive","time limit",0};
   switch(I.op){
    case O_BIN: for(int j=0;j<I.nd;j++){ Val b=get(F,I.b[j]); if((I.eop==E_UDIV||I.eop==E_SDIV||I.eop==E_UREM||I.eop==E_SREM)&&b.e){ /* rustc guards division by zero */ } F.s[I.dst+j]=mkBin(I.eop,I.bits,get(F,I.a[j]),b);} break;
    case O_ICMP: for(int j=0;j<I.nd;j++) F.s[I.dst+j]=I.swap?mkBin(I.eop,I.bits,get(F,I.b[j]),get(F,I.a[j])):mkBin(I.eop,I.bits,get(F,I.a[j]),get(F,I.b[j])); break;
    case O_SELECT: { bool vec=I.c.size()>1; Val c=get(F,I.c[0]); if(!vec&&c.e) c=narrow(c); for(int j=0;j<I.nd;j++){ if(vec) c=get(F,I.c[j]); F.s[I.dst+j]=mkIte(c,get(F,I.a[j]),get(F,I.b[j]),I.lv[j].bits);} break; }
    case O_GEP: { Val r=get(F,I.a[0]); if(I.cst) r=mkBin(E_ADD,64,r,Val(I.cst)); for(auto&g:I.gt){ Val v=get(F,g.v); v=g.bits==64?v:g.bits<64?mkSext(v,g.bits,64):mkExtract(v,g.bits,0,64); if(g.scale!=1) v=mkBin(E_MUL,64,v,Val(g.scale)); r=mkBin(E_ADD,64,r,v);} F.s[I.dst]=r; break; }
    case O_LOAD: { Val a=get(F,I.a[0]); if(a.e) a=narrow(a); if(a.e&&a.e->op!=E_TAB) a=Val(concretize(S,a,64,64)); static vector<Val> tmp; tmp.clear(); for(auto&l:I.lv) tmp.push_back(loadV(S,l.off?mkBin(E_ADD,64,a,Val(l.off)):a,l.bits)); for(size_t j=0;j<tmp.size();j++) F.s[I.dst+j]=tmp[j]; break; }
    case O_STORE: { Val a=get(F,I.b[0]); if(a.e) a=narrow(a); if(a.e&&a.e->op!=E_TAB) a=Val(concretize(S,a,64,64)); for(size_t j=0;j<I.lv.size();j++){ auto&l=I.lv[j]; storeV(S,l.off?mkBin(E_ADD,64,a,Val(l.off)):a,get(F,I.a[j]),l.bits);} break; }
    case O_ALLOCA: { u64 p=allocObj(S,I.cst,false,0xA5); F.allocas.push_back(addrIdx(p)); F.s[I.dst]=Val(p); break; }
    case O_BR: jump(S,F,I.t0); continue;
    case O_CBR: { bool d=branchOn(S,get(F,I.c[0])); jump(S,S.fr.back(),d?I.t0:I.t1); continue; }
    case O_SWITCH: { Val v=narrow(get(F,I.a[0])); if(!v.e){ int to=I.t0; for(auto&c:I.cases) if(c.first==v.c){ to=c.second; break; } jump(S,F,to); continue; }
      // group by target, split one target at a time
      vector<int> tg; map<int,Val> cond; Val none(1); for(auto&c:I.cases){ Val e=mkBin(E_EQ,I.bits,v,Val(c.first)); if(!e.e&&!e.c) continue; none=mkBin(E_AND,1,none,mkNot(e)); auto it=cond.find(c.second); if(it==cond.end()){ cond[c.second]=e; tg.push_back(c.second);} else it->second=mkBin(E_OR,1,it->second,e); }
      { auto it=cond.find(I.t0); if(it==cond.end()){ cond[I.t0]=none; tg.push_back(I.t0);} else it->second=mkBin(E_OR,1,it->second,none); }
      bool done=false; for(size_t i=0;i<tg.size();i++){ Val c=narrow(cond[tg[i]]); if(!c.e){ if(!c.c) continue; jump(S,S.fr.back(),tg[i]); done=true; break; }
        bool ft,ff; vector<u64> mt,mf; feas(S,c.e,ft,ff,mt,mf); if(ft&&ff){ State*o=forkState(S); o->model=mt; addTrue(*o,c.e); cur=o; jump(*o,o->fr.back(),tg[i]); cur=&S; work.push_back(o); S.model=mf; addTrue(S,notE(S,c.e)); } else if(ft){ S.model=mt; jump(S,S.fr.back(),tg[i]); done=true; break; } else S.model=mf; }
      if(!done) die("switch: no target"); continue; }
    case O_RET: { static vector<Val> rv; rv.clear(); for(auto&l:I.a) rv.push_back(get(F,l)); for(size_t a:F.allocas) S.mem[a].reset(); S.fr.pop_back(); if(S.fr.empty()) throw EndPath{"ok","",0}; Frame&P=S.fr.back(); Instr&C=P.f->bb[P.bb].ins[P.ip]; if(C.dst>=0) for(size_t j=0;j<rv.size()&&(int)j<C.nd;j++) P.s[C.dst+j]=rv[j]; P.ip++; continue; }
    case O_UNREACH: throw EndPath{"memory","reached unreachable",0};
    case O_CALL: { Func*fn=I.fn; if(!fn&&I.callee.empty()){ u64 a=(u64)concretize(S,get(F,I.a[0]),64,64); auto it=funcByAddr.find(a); if(it==funcByAddr.end()) throw EndPath{"error","indirect call to unknown address",0}; fn=it->second; }
      if(!fn) { string n=I.callee; while(aliases.count(n)) n=aliases[n]; auto it=funcs.find(n); if(it==funcs.end()) throw EndPath{"error","unknown function "+n,0}; fn=it->second; I.fn=fn; }
      if(fn->defined&&fn->name.compare(0,4,"sym_")!=0){ vector<Val> av; for(auto&o:I.args) for(auto&l:o) av.push_back(get(F,l)); pushFrame(S,fn,av); continue; }
      if(fn->attr<0) fn->attr=classify(fn->name); size_t me=S.fr.size()-1; 
      if(fn->attr!=I_UNKNOWN&&intrinsic(S,F,I,fn->attr,fn->name)){ S.fr[me].ip++; continue; }
      if(fn->noreturn||fn->name.find("9panicking")!=string::npos){ vector<Val> av; for(auto&o:I.args) for(auto&l:o) av.push_back(narrow(get(F,l))); doPanic(S,fn->name,av); }
      throw EndPath{"error","call to undefined function "+fn->name,0}; }
    case O_EXTRACTV: { static vector<Val> tmp; tmp.clear(); for(int j=0;j<I.nd;j++) tmp.push_back(get(F,I.a[I.l0+j])); for(int j=0;j<I.nd;j++) F.s[I.dst+j]=tmp[j]; break; }
    case O_INSERTV: { static vector<Val> tmp; tmp.clear(); for(int j=0;j<I.nd;j++) tmp.push_back(get(F,I.a[j])); for(size_t j=0;j<I.b.size();j++) tmp[I.l0+j]=get(F,I.b[j]); for(int j=0;j<I.nd;j++) F.s[I.dst+j]=tmp[j]; break; }
    case O_CAST: for(int j=0;j<I.nd;j++){ Val a=get(F,I.a[j]); F.s[I.dst+j]= I.tbits<I.bits?mkExtract(a,I.bits,0,I.tbits): I.sub?mkSext(a,I.bits,I.tbits): mkZext(a,I.bits,I.tbits);} break;
    case O_FREEZE: for(int j=0;j<I.nd;j++) F.s[I.dst+j]=get(F,I.a[j]); break;
    case O_FENCE: break;
    case O_EXTRELEM: { u64 k=(u64)concretize(S,get(F,I.b[0]),64,16); F.s[I.dst]=get(F,I.a[k]); break; }
    case O_INSELEM: { u64 k=(u64)concretize(S,get(F,I.c[0]),64,16); vector<Val> t; for(auto&l:I.a) t.push_back(get(F,l)); t[k]=get(F,I.b[0]); for(size_t j=0;j<t.size();j++) F.s[I.dst+j]=t[j]; break; }
    case O_SHUF: { vector<Val> t; for(auto&l:I.a) t.push_back(get(F,l)); for(auto&l:I.b) t.push_back(get(F,l)); for(int j=0;j<I.nd;j++) F.s[I.dst+j]=t[I.shuf[j]]; break; }
    default: throw EndPath{"error","unsupported instruction '"+I.callee+"' at IR line "+std::to_string(I.line),0}; }
   S.fr.back().ip++; } }
 catch(EndPath&e){ string m=e.msg; if((e.kind=="memory"||e.kind=="inconclusive")&&!S.fr.empty()){ Frame&F=S.fr.back(); m+=" in "+F.f->name+" at IR line "+std::to_string(F.f->bb[F.bb].ins[F.ip].line); } endPath(S,e.kind,m,e.id); }
 catch(std::runtime_error&e){ endPath(S,"error",string(e.what()),0); }
 delete SP; }

static string js(const string&s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static void zerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error %d: %s\n",(int)e,Z3_get_error_msg(c,e)); exit(3); }
int main(int argc,char**argv){ if(argc<3){ fprintf(stderr,"usage\n"); return 2; } string file=argv[1],entry=argv[2]; for(int i=3;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); }; if(a=="--max-paths") maxPaths=stoull(nx()); else if(a=="--max-steps") maxSteps=stoull(nx()); else if(a=="--time") maxTime=stod(nx()); else if(a=="--query-ms") queryMs=stoul(nx()); else if(a=="--samples") maxSamples=stoull(nx()); else if(a=="--smt2") smtDir=nx(); else if(a=="--cover") cover=true; else if(a=="--first") firstOnly=true; }
  tStart=now(); try{ std::ifstream in(file); std::stringstream ss; ss<<in.rdbuf(); string src=ss.str(); if(src.empty()) die("empty input"); lex(src); Parser P; P.module(); toks.clear();
    // resolve memory image: assign addresses and write initialisers
    for(auto&kv:globals) symAddr(kv.first); for(auto&kv:funcs) symAddr(kv.first);
    for(auto&kv:globals){ Global*g=kv.second; if(!g->init) continue; vector<Val> v; Parser::flat(g->init,g->ty,v); vector<Leaf2> lv; leaves(g->ty,0,lv); if(lv.size()!=v.size()) die("global init "+g->name); Obj&o=*initMem[addrIdx(g->addr)]; for(size_t i=0;i<v.size();i++){ int n=(lv[i].bits+7)/8; for(int k=0;k<n;k++) o.b[lv[i].off+k]=(uint8_t)(v[i].c>>(8*k)); } }
    auto it=funcs.find(entry); if(it==funcs.end()||!it->second->defined) die("no entry "+entry);
    Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"timeout",std::to_string(queryMs).c_str()); zc=Z3_mk_context(cfg); Z3_set_error_handler(zc,zerr); zs=Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc,zs);
    { Z3_params p=Z3_mk_params(zc); Z3_params_inc_ref(zc,p); Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"),queryMs); Z3_solver_set_params(zc,zs,p); }
    State*S0=new State; S0->mem=initMem; cur=S0; pushFrame(*S0,it->second,{}); work.push_back(S0);
    while(!work.empty()){ State*s=work.back(); work.pop_back(); if(now()-tStart>maxTime||nPaths>=maxPaths){ incon.push_back(nPaths>=maxPaths?"limit: path limit":"inconclusive: time limit"); for(auto w:work) delete w; work.clear(); delete s; break; } run(s); if(firstOnly&&!viols.empty()) break; }
  } catch(std::exception&e){ incon.push_back(string("error: ")+e.what()); }
  string coverRes="not run"; if(cover&&incon.empty()&&coverLeaves.size()<=20000){ double t0=now(); Z3_solver_push(zc,zs); set<int> used; for(auto&l:coverLeaves){ vector<Z3_ast> c; for(auto&d:l.first){ used.insert(d.first); Z3_ast a=domAst(d.first,d.second); if(a) c.push_back(a);} for(auto e:l.second) c.push_back(Z3_mk_eq(zc,zt(e),zconst(1,1))); if(c.empty()) c.push_back(Z3_mk_true(zc)); Z3_solver_assert(zc,zs,Z3_mk_not(zc,Z3_mk_and(zc,c.size(),c.data()))); } for(int i:used){ Z3_ast a=domAst(i,fullMask(syms[i].n)); if(a) Z3_solver_assert(zc,zs,a);} Z3_lbool r=Z3_solver_check(zc,zs); nQuery++; if(r==Z3_L_FALSE){ nUnsat++; coverRes="complete"; } else if(r==Z3_L_TRUE){ nSat++; coverRes="INCOMPLETE"; } else coverRes="unknown"; Z3_solver_pop(zc,zs,1); tSolver+=now()-t0; }
  printf("{\"entry\":%s,\"paths\":%llu,\"assume_cut\":%llu,\"panic_ok\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cached\":%llu,\"domain_splits\":%llu,\"assert_solver\":%llu,\"assert_folded\":%llu,\"exprs\":%llu,\"solver_s\":%.4f,\"wall_s\":%.3f,\"cover\":%s,\n",js(entry).c_str(),(unsigned long long)nPaths,(unsigned long long)nAssume,(unsigned long long)nPanicOk,(unsigned long long)nForks,(unsigned long long)nSteps,(unsigned long long)nQuery,(unsigned long long)nSat,(unsigned long long)nUnsat,(unsigned long long)nCache,(unsigned long long)nDomain,(unsigned long long)nAssertSolver,(unsigned long long)nAssertFold,(unsigned long long)nExpr,tSolver,now()-tStart,js(coverRes).c_str());
  auto ins=[&](const vector<std::pair<int,u64>>&v){ string r="["; for(size_t i=0;i<v.size();i++) r+=(i?",":"")+std::to_string(v[i].second); return r+"]"; }; auto outs=[&](const vector<u64>&v){ string r="["; for(size_t i=0;i<v.size();i++) r+=(i?",":"")+std::to_string(v[i]); return r+"]"; };
  printf("\"functions\":["); bool f1=true; for(auto&kv:funcs) if(kv.second->defined&&kv.second->steps){ printf("%s%s",f1?"":",",js(kv.first).c_str()); f1=false; } printf("],\n\"reach\":{"); f1=true; for(auto&kv:reachCount){ printf("%s\"%d\":%llu",f1?"":",",kv.first,(unsigned long long)kv.second); f1=false; } printf("},\n\"asserts\":{"); f1=true; for(auto&kv:assertCount){ printf("%s\"%d\":%llu",f1?"":",",kv.first,(unsigned long long)kv.second); f1=false; } 
  printf("},\n\"violations\":["); for(size_t i=0;i<viols.size();i++) printf("%s{\"kind\":%s,\"msg\":%s,\"id\":%d,\"inputs\":%s,\"outs\":%s}",i?",":"",js(viols[i].kind).c_str(),js(viols[i].msg).c_str(),viols[i].id,ins(viols[i].in).c_str(),outs(viols[i].outs).c_str());
  printf("],\n\"samples\":["); for(size_t i=0;i<samples.size();i++) printf("%s{\"inputs\":%s,\"outs\":%s,\"panic\":%s}",i?",":"",ins(samples[i].in).c_str(),outs(samples[i].outs).c_str(),samples[i].panic?"true":"false");
  printf("],\n\"inconclusive\":["); for(size_t i=0;i<incon.size();i++) printf("%s%s",i?",":"",js(incon[i]).c_str()); printf("]}\n"); return 0; }
