// LLVM-IR (textual, LLVM 18, opaque pointers) loader.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
struct Ty {
  enum Kind { Void, Int, F32, F64, F80, Ptr, Arr, Struct, Vec, Label, Meta, Func, Opaque } k;
  int bits = 0; uint64_t n = 0; Ty* el = nullptr; std::vector<Ty*> f; bool packed = false; bool vararg = false;
  bool laid = false; uint64_t sz = 0, al = 1; std::vector<uint64_t> off; std::string name;
  bool scalar() const { return k == Int || k == F32 || k == F64 || k == Ptr || k == F80; }
};
uint64_t tySize(Ty* t);   // alloc size
uint64_t tyAlign(Ty* t);
int tyBits(Ty* t);        // scalar bit width

struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; };
struct Op { int reg = -1; Val c; Ty* ty = nullptr; bool undef = false; };
enum class O : uint8_t { Bin, ICmp, FCmp, Select, Phi, Br, CondBr, Switch, Ret, Unreachable, Call, Invoke, LandingPad, Resume, Alloca, Load, Store, Gep,
  Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, PtrToInt, IntToPtr, BitCast, ExtractValue, InsertValue, Freeze, FNeg, AtomicRMW, CmpXchg, Fence,
  ExtractElement, InsertElement, ShuffleVector, VAArg };
struct Function;
struct Inst {
  O o; Ty* ty = nullptr; int res = -1; int sub = 0; // sub = opcode/predicate
  std::vector<Op> ops; std::vector<int> tgt; // block targets
  std::vector<std::pair<Op, int>> phi; std::vector<u128> cases;
  std::vector<uint64_t> idx; // extractvalue idx
  Ty* ety = nullptr; // gep source / alloca / load type
  std::vector<std::pair<int, uint64_t>> gep; uint64_t gepOff = 0; // (op index, scale)
  Function* callee = nullptr; bool cleanup = false; // landingpad
  int dbg = -1;
};
struct Block { std::vector<Inst> ins; std::string name; };
struct Function {
  std::string name; Ty* ret = nullptr; std::vector<Ty*> params; std::vector<int> paramRegs; bool vararg = false; bool def = false, parsed = false;
  std::vector<uint64_t> byvalSize; // 0 if not byval
  const char *body = nullptr, *bodyEnd = nullptr; std::vector<std::string> pnames;
  int nregs = 0; std::vector<Block> blocks; uint64_t addr = 0; int builtin = -1; Function* stub = nullptr;
};
struct Global { std::string name; Ty* ty = nullptr; bool cst = false, def = false; const char* init = nullptr; uint64_t addr = 0; uint64_t size = 0; bool inited = false; };
struct Module {
  std::string text;
  std::unordered_map<std::string, Ty*> types; std::unordered_map<std::string, const char*> typeDefs;
  std::unordered_map<std::string, Function*> funcs; std::unordered_map<std::string, Global*> globals;
  std::unordered_map<std::string, std::string> aliases;
  std::unordered_map<uint64_t, Function*> funcByAddr; std::unordered_map<uint64_t, Global*> globalById;
  std::unordered_map<int, std::pair<int,int>> dbgLoc; // id -> (line, scope)
  std::unordered_map<int, std::string> dbgFile; std::unordered_map<int, int> scopeFile; std::unordered_map<int,int> scopeParent; std::unordered_map<int,std::string> scopeName;
  std::vector<std::string> ctors;
  uint64_t nextId = 16;
};
extern Module M;
constexpr uint64_t OBJ_OFF = 0x10000000ull;
inline uint64_t objBase(uint64_t id) { return (id << 32) | OBJ_OFF; }
inline uint64_t objId(uint64_t addr) { return addr >> 32; }
void loadModule(const std::string& file);
void parseBody(Function* f);
// writes constant initialiser bytes
void globalInit(Global* g, std::vector<E>& bytes);
std::string dbgStr(int id);
uint64_t symAddr(const std::string& n);
