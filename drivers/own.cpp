// Makes the inline members of handle-owning classes visible to the analysis.
// Nothing here is ever run.
#include "system/mmapper.h"
#include "network/socket.h"

namespace driver_own {

typedef pfi::system::mmapper::mmapper mm;

void use(mm&);
void mm_move(mm& a, mm& b)
{
  mm c(static_cast<mm&&>(a));
  b = static_cast<mm&&>(c);
  b.swap(c);
  std::swap(b, c);
  use(c);
  const mm& k = b;
  (void)(b.begin() != b.end());
  (void)(k.begin() != k.end());
  (void)(b.size() + b.is_open());
  b[0] = k[0];
}

}
