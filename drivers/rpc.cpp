// Instantiates the RPC stubs of every arity through the public interface, with
// argument types that cannot be confused. Never run.
#include "network/rpc.h"
#include "network/rpc/reflect.h"
#include "data/serialization.h"
namespace drv {
template <int N> struct Arg {
  int x;
  Arg(); Arg(const Arg&); Arg& operator=(const Arg&); ~Arg();
  template <class Ar> void serialize(Ar& ar);
};
struct Ret {
  int x;
  Ret(); Ret(const Ret&); Ret& operator=(const Ret&); ~Ret();
  template <class Ar> void serialize(Ar& ar);
};
typedef Arg<1> A1; typedef Arg<2> A2; typedef Arg<3> A3; typedef Arg<4> A4; typedef Arg<5> A5;
typedef Arg<6> A6; typedef Arg<7> A7; typedef Arg<8> A8; typedef Arg<9> A9;

template <class F> void both(pfi::network::rpc::rpc_server& s, pfi::network::rpc::rpc_client& c, const pfi::lang::function<F>& f, pfi::lang::function<F>& g)
{
  s.add<F>("f", f);
  g = c.call<F>("f");
}
#define BOTH(...) void use(pfi::network::rpc::rpc_server& s, pfi::network::rpc::rpc_client& c, const pfi::lang::function<__VA_ARGS__>& f, pfi::lang::function<__VA_ARGS__>& g) { both<__VA_ARGS__>(s, c, f, g); }
BOTH(Ret())
BOTH(Ret(A1))
BOTH(Ret(A1,A2))
BOTH(Ret(A1,A2,A3))
BOTH(Ret(A1,A2,A3,A4))
BOTH(Ret(A1,A2,A3,A4,A5))
BOTH(Ret(A1,A2,A3,A4,A5,A6))
BOTH(Ret(A1,A2,A3,A4,A5,A6,A7))
BOTH(Ret(A1,A2,A3,A4,A5,A6,A7,A8))
BOTH(Ret(A1,A2,A3,A4,A5,A6,A7,A8,A9))
}
