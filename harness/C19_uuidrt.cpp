//@ reach: rt
//@ bounds: print then parse: two arbitrary bytes at every place of the identifier
#include "sx.h"
#include "plat.h"
#include "uuid.h"
int sx_main() {
  UUID u, v; int q = sx_choose(15, "q"); for (int i = 0; i < 16; i++) u.id[i] = i * 17 + 3; sx_bytes(u.id + q, 2, "id"); memset(v.id, 0xA5, 16);
  char b[40]; uuid_to_str(&u, b, 40); if (sx_choose(2, "upper")) for (int i = 0; i < 36; i++) b[i] = toupper(b[i]);
  uuid_from_str(b, &v); for (int i = 0; i < 16; i++) sx_assert(v.id[i] == u.id[i], "parsing the printed form gives the identifier back"); sx_reach("rt");
  sx_assert(uuid_compare(&u, &v) == 0, "and it compares equal");
  return 0;
}
