// pairs of operands of every kind
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
namespace NS {
#define K2(id, fam, tgt, L, OPER, R)                                               \
  OP(id "." #L "." #R, fam, 0, 1) {                                                \
    K_##L::go(w, a[1], [&](auto &&x) {                                             \
      K_##R::go(w, a[2], [&](auto &&y) {                                           \
        outv(o, FWD(x) OPER FWD(y));                                               \
        w.tgt(a[0]) = FWD(x) OPER FWD(y);                                          \
      });                                                                          \
    });                                                                            \
  }
#if PART == 0
K2("k2.add", F_CALC, wd, ld, +, ld)
K2("k2.add", F_CALC, wd, ld, +, li)
K2("k2.add", F_CALC, wd, ld, +, lb)
K2("k2.add", F_CALC, wd, ld, +, lw)
K2("k2.add", F_CALC, wd, ld, +, md)
K2("k2.add", F_CALC, wd, ld, +, sdi)
K2("k2.add", F_CALC, wd, ld, +, ri)
K2("k2.add", F_CALC, wd, ld, +, rd)
K2("k2.add", F_CALC, wd, ld, +, rb)
K2("k2.add", F_CALC, wd, ld, +, xd)
K2("k2.add", F_CALC, wd, ld, +, us)
K2("k2.add", F_CALC, wd, ld, +, d)
K2("k2.add", F_CALC, wd, ld, +, i)
K2("k2.add", F_CALC, wd, ld, +, b)
K2("k2.add", F_CALC, wd, li, +, ld)
K2("k2.add", F_CALC, wd, li, +, li)
K2("k2.add", F_CALC, wd, li, +, lb)
K2("k2.add", F_CALC, wd, li, +, lw)
K2("k2.add", F_CALC, wd, li, +, md)
K2("k2.add", F_CALC, wd, li, +, sdi)
K2("k2.add", F_CALC, wd, li, +, ri)
K2("k2.add", F_CALC, wd, li, +, rd)
K2("k2.add", F_CALC, wd, li, +, rb)
K2("k2.add", F_CALC, wd, li, +, xd)
K2("k2.add", F_CALC, wd, li, +, us)
K2("k2.add", F_CALC, wd, li, +, d)
K2("k2.add", F_CALC, wd, li, +, i)
K2("k2.add", F_CALC, wd, li, +, b)
K2("k2.add", F_CALC, wd, lb, +, ld)
K2("k2.add", F_CALC, wd, lb, +, li)
K2("k2.add", F_CALC, wd, lb, +, lw)
K2("k2.add", F_CALC, wd, lb, +, md)
K2("k2.add", F_CALC, wd, lb, +, sdi)
K2("k2.add", F_CALC, wd, lb, +, ri)
K2("k2.add", F_CALC, wd, lb, +, rd)
K2("k2.add", F_CALC, wd, lb, +, xd)
K2("k2.add", F_CALC, wd, lb, +, us)
K2("k2.add", F_CALC, wd, lb, +, d)
K2("k2.add", F_CALC, wd, lb, +, i)
K2("k2.add", F_CALC, wd, lw, +, ld)
K2("k2.add", F_CALC, wd, lw, +, li)
K2("k2.add", F_CALC, wd, lw, +, lb)
K2("k2.add", F_CALC, wd, lw, +, lw)
K2("k2.add", F_CALC, wd, lw, +, md)
K2("k2.add", F_CALC, wd, lw, +, sdi)
K2("k2.add", F_CALC, wd, lw, +, ri)
K2("k2.add", F_CALC, wd, lw, +, rd)
K2("k2.add", F_CALC, wd, lw, +, rb)
K2("k2.add", F_CALC, wd, lw, +, xd)
K2("k2.add", F_CALC, wd, lw, +, us)
K2("k2.add", F_CALC, wd, lw, +, d)
K2("k2.add", F_CALC, wd, lw, +, i)
K2("k2.add", F_CALC, wd, lw, +, b)
K2("k2.add", F_CALC, wd, md, +, ld)
K2("k2.add", F_CALC, wd, md, +, li)
K2("k2.add", F_CALC, wd, md, +, lb)
K2("k2.add", F_CALC, wd, md, +, lw)
K2("k2.add", F_CALC, wd, md, +, md)
K2("k2.add", F_CALC, wd, md, +, sdi)
K2("k2.add", F_CALC, wd, md, +, ri)
K2("k2.add", F_CALC, wd, md, +, rd)
K2("k2.add", F_CALC, wd, md, +, rb)
K2("k2.add", F_CALC, wd, md, +, xd)
K2("k2.add", F_CALC, wd, md, +, us)
K2("k2.add", F_CALC, wd, md, +, d)
K2("k2.add", F_CALC, wd, md, +, i)
K2("k2.add", F_CALC, wd, md, +, b)
K2("k2.add", F_CALC, wd, sdi, +, ld)
K2("k2.add", F_CALC, wd, sdi, +, li)
K2("k2.add", F_CALC, wd, sdi, +, lb)
K2("k2.add", F_CALC, wd, sdi, +, lw)
K2("k2.add", F_CALC, wd, sdi, +, md)
K2("k2.add", F_CALC, wd, sdi, +, sdi)
K2("k2.add", F_CALC, wd, sdi, +, ri)
K2("k2.add", F_CALC, wd, sdi, +, rd)
K2("k2.add", F_CALC, wd, sdi, +, rb)
K2("k2.add", F_CALC, wd, sdi, +, xd)
K2("k2.add", F_CALC, wd, sdi, +, us)
K2("k2.add", F_CALC, wd, sdi, +, d)
K2("k2.add", F_CALC, wd, sdi, +, i)
K2("k2.add", F_CALC, wd, sdi, +, b)
K2("k2.add", F_CALC, wd, ri, +, ld)
K2("k2.add", F_CALC, wd, ri, +, li)
K2("k2.add", F_CALC, wd, ri, +, lb)
K2("k2.add", F_CALC, wd, ri, +, lw)
K2("k2.add", F_CALC, wd, ri, +, md)
K2("k2.add", F_CALC, wd, ri, +, sdi)
K2("k2.add", F_CALC, wd, ri, +, ri)
K2("k2.add", F_CALC, wd, ri, +, rd)
#elif PART == 1
K2("k2.add", F_CALC, wd, ri, +, rb)
K2("k2.add", F_CALC, wd, ri, +, xd)
K2("k2.add", F_CALC, wd, ri, +, us)
K2("k2.add", F_CALC, wd, ri, +, d)
K2("k2.add", F_CALC, wd, ri, +, i)
K2("k2.add", F_CALC, wd, ri, +, b)
K2("k2.add", F_CALC, wd, rd, +, ld)
K2("k2.add", F_CALC, wd, rd, +, li)
K2("k2.add", F_CALC, wd, rd, +, lb)
K2("k2.add", F_CALC, wd, rd, +, lw)
K2("k2.add", F_CALC, wd, rd, +, md)
K2("k2.add", F_CALC, wd, rd, +, sdi)
K2("k2.add", F_CALC, wd, rd, +, ri)
K2("k2.add", F_CALC, wd, rd, +, rd)
K2("k2.add", F_CALC, wd, rd, +, rb)
K2("k2.add", F_CALC, wd, rd, +, xd)
K2("k2.add", F_CALC, wd, rd, +, us)
K2("k2.add", F_CALC, wd, rd, +, d)
K2("k2.add", F_CALC, wd, rd, +, i)
K2("k2.add", F_CALC, wd, rd, +, b)
K2("k2.add", F_CALC, wd, rb, +, ld)
K2("k2.add", F_CALC, wd, rb, +, li)
K2("k2.add", F_CALC, wd, rb, +, lw)
K2("k2.add", F_CALC, wd, rb, +, md)
K2("k2.add", F_CALC, wd, rb, +, sdi)
K2("k2.add", F_CALC, wd, rb, +, ri)
K2("k2.add", F_CALC, wd, rb, +, rd)
K2("k2.add", F_CALC, wd, rb, +, xd)
K2("k2.add", F_CALC, wd, rb, +, us)
K2("k2.add", F_CALC, wd, rb, +, d)
K2("k2.add", F_CALC, wd, rb, +, i)
K2("k2.add", F_CALC, wd, xd, +, ld)
K2("k2.add", F_CALC, wd, xd, +, li)
K2("k2.add", F_CALC, wd, xd, +, lb)
K2("k2.add", F_CALC, wd, xd, +, lw)
K2("k2.add", F_CALC, wd, xd, +, md)
K2("k2.add", F_CALC, wd, xd, +, sdi)
K2("k2.add", F_CALC, wd, xd, +, ri)
K2("k2.add", F_CALC, wd, xd, +, rd)
K2("k2.add", F_CALC, wd, xd, +, rb)
K2("k2.add", F_CALC, wd, xd, +, xd)
K2("k2.add", F_CALC, wd, xd, +, us)
K2("k2.add", F_CALC, wd, xd, +, d)
K2("k2.add", F_CALC, wd, xd, +, i)
K2("k2.add", F_CALC, wd, xd, +, b)
K2("k2.add", F_CALC, wd, us, +, ld)
K2("k2.add", F_CALC, wd, us, +, li)
K2("k2.add", F_CALC, wd, us, +, lb)
K2("k2.add", F_CALC, wd, us, +, lw)
K2("k2.add", F_CALC, wd, us, +, md)
K2("k2.add", F_CALC, wd, us, +, sdi)
K2("k2.add", F_CALC, wd, us, +, ri)
K2("k2.add", F_CALC, wd, us, +, rd)
K2("k2.add", F_CALC, wd, us, +, rb)
K2("k2.add", F_CALC, wd, us, +, xd)
K2("k2.add", F_CALC, wd, us, +, us)
K2("k2.add", F_CALC, wd, us, +, d)
K2("k2.add", F_CALC, wd, us, +, i)
K2("k2.add", F_CALC, wd, us, +, b)
K2("k2.add", F_CALC, wd, d, +, ld)
K2("k2.add", F_CALC, wd, d, +, li)
K2("k2.add", F_CALC, wd, d, +, lb)
K2("k2.add", F_CALC, wd, d, +, lw)
K2("k2.add", F_CALC, wd, d, +, md)
K2("k2.add", F_CALC, wd, d, +, sdi)
K2("k2.add", F_CALC, wd, d, +, ri)
K2("k2.add", F_CALC, wd, d, +, rd)
K2("k2.add", F_CALC, wd, d, +, rb)
K2("k2.add", F_CALC, wd, d, +, xd)
K2("k2.add", F_CALC, wd, d, +, us)
K2("k2.add", F_CALC, wd, i, +, ld)
K2("k2.add", F_CALC, wd, i, +, li)
K2("k2.add", F_CALC, wd, i, +, lb)
K2("k2.add", F_CALC, wd, i, +, lw)
K2("k2.add", F_CALC, wd, i, +, md)
K2("k2.add", F_CALC, wd, i, +, sdi)
K2("k2.add", F_CALC, wd, i, +, ri)
K2("k2.add", F_CALC, wd, i, +, rd)
K2("k2.add", F_CALC, wd, i, +, rb)
K2("k2.add", F_CALC, wd, i, +, xd)
K2("k2.add", F_CALC, wd, i, +, us)
K2("k2.add", F_CALC, wd, b, +, ld)
K2("k2.add", F_CALC, wd, b, +, li)
K2("k2.add", F_CALC, wd, b, +, lw)
K2("k2.add", F_CALC, wd, b, +, md)
K2("k2.add", F_CALC, wd, b, +, sdi)
K2("k2.add", F_CALC, wd, b, +, ri)
K2("k2.add", F_CALC, wd, b, +, rd)
K2("k2.add", F_CALC, wd, b, +, xd)
K2("k2.add", F_CALC, wd, b, +, us)
#elif PART == 2
K2("k2.sub", F_CALC, wd, ld, -, ld)
K2("k2.sub", F_CALC, wd, ld, -, li)
K2("k2.sub", F_CALC, wd, ld, -, lb)
K2("k2.sub", F_CALC, wd, ld, -, lw)
K2("k2.sub", F_CALC, wd, ld, -, rd)
K2("k2.sub", F_CALC, wd, ld, -, d)
K2("k2.sub", F_CALC, wd, ld, -, i)
K2("k2.sub", F_CALC, wd, ld, -, b)
K2("k2.sub", F_CALC, wd, li, -, ld)
K2("k2.sub", F_CALC, wd, li, -, li)
K2("k2.sub", F_CALC, wd, li, -, lb)
K2("k2.sub", F_CALC, wd, li, -, lw)
K2("k2.sub", F_CALC, wd, li, -, rd)
K2("k2.sub", F_CALC, wd, li, -, d)
K2("k2.sub", F_CALC, wd, li, -, i)
K2("k2.sub", F_CALC, wd, li, -, b)
K2("k2.sub", F_CALC, wd, lb, -, ld)
K2("k2.sub", F_CALC, wd, lb, -, li)
K2("k2.sub", F_CALC, wd, lb, -, lw)
K2("k2.sub", F_CALC, wd, lb, -, rd)
K2("k2.sub", F_CALC, wd, lb, -, d)
K2("k2.sub", F_CALC, wd, lb, -, i)
K2("k2.sub", F_CALC, wd, lw, -, ld)
K2("k2.sub", F_CALC, wd, lw, -, li)
K2("k2.sub", F_CALC, wd, lw, -, lb)
K2("k2.sub", F_CALC, wd, lw, -, lw)
K2("k2.sub", F_CALC, wd, lw, -, rd)
K2("k2.sub", F_CALC, wd, lw, -, d)
K2("k2.sub", F_CALC, wd, lw, -, i)
K2("k2.sub", F_CALC, wd, lw, -, b)
K2("k2.sub", F_CALC, wd, rd, -, ld)
K2("k2.sub", F_CALC, wd, rd, -, li)
K2("k2.sub", F_CALC, wd, rd, -, lb)
K2("k2.sub", F_CALC, wd, rd, -, lw)
K2("k2.sub", F_CALC, wd, rd, -, rd)
K2("k2.sub", F_CALC, wd, rd, -, d)
K2("k2.sub", F_CALC, wd, rd, -, i)
K2("k2.sub", F_CALC, wd, rd, -, b)
K2("k2.sub", F_CALC, wd, d, -, ld)
K2("k2.sub", F_CALC, wd, d, -, li)
K2("k2.sub", F_CALC, wd, d, -, lb)
K2("k2.sub", F_CALC, wd, d, -, lw)
K2("k2.sub", F_CALC, wd, d, -, rd)
K2("k2.sub", F_CALC, wd, i, -, ld)
K2("k2.sub", F_CALC, wd, i, -, li)
K2("k2.sub", F_CALC, wd, i, -, lb)
K2("k2.sub", F_CALC, wd, i, -, lw)
K2("k2.sub", F_CALC, wd, i, -, rd)
K2("k2.sub", F_CALC, wd, b, -, ld)
K2("k2.sub", F_CALC, wd, b, -, li)
K2("k2.sub", F_CALC, wd, b, -, lw)
K2("k2.sub", F_CALC, wd, b, -, rd)
#elif PART == 3
K2("k2.mul", F_CALC, wd, ld, *, ld)
K2("k2.mul", F_CALC, wd, ld, *, li)
K2("k2.mul", F_CALC, wd, ld, *, lb)
K2("k2.mul", F_CALC, wd, ld, *, lw)
K2("k2.mul", F_CALC, wd, ld, *, rd)
K2("k2.mul", F_CALC, wd, ld, *, d)
K2("k2.mul", F_CALC, wd, ld, *, i)
K2("k2.mul", F_CALC, wd, ld, *, b)
K2("k2.mul", F_CALC, wd, li, *, ld)
K2("k2.mul", F_CALC, wd, li, *, li)
K2("k2.mul", F_CALC, wd, li, *, lb)
K2("k2.mul", F_CALC, wd, li, *, lw)
K2("k2.mul", F_CALC, wd, li, *, rd)
K2("k2.mul", F_CALC, wd, li, *, d)
K2("k2.mul", F_CALC, wd, li, *, i)
K2("k2.mul", F_CALC, wd, li, *, b)
K2("k2.mul", F_CALC, wd, lb, *, ld)
K2("k2.mul", F_CALC, wd, lb, *, li)
K2("k2.mul", F_CALC, wd, lb, *, lw)
K2("k2.mul", F_CALC, wd, lb, *, rd)
K2("k2.mul", F_CALC, wd, lb, *, d)
K2("k2.mul", F_CALC, wd, lb, *, i)
K2("k2.mul", F_CALC, wd, lw, *, ld)
K2("k2.mul", F_CALC, wd, lw, *, li)
K2("k2.mul", F_CALC, wd, lw, *, lb)
K2("k2.mul", F_CALC, wd, lw, *, lw)
K2("k2.mul", F_CALC, wd, lw, *, rd)
K2("k2.mul", F_CALC, wd, lw, *, d)
K2("k2.mul", F_CALC, wd, lw, *, i)
K2("k2.mul", F_CALC, wd, lw, *, b)
K2("k2.mul", F_CALC, wd, rd, *, ld)
K2("k2.mul", F_CALC, wd, rd, *, li)
K2("k2.mul", F_CALC, wd, rd, *, lb)
K2("k2.mul", F_CALC, wd, rd, *, lw)
K2("k2.mul", F_CALC, wd, rd, *, rd)
K2("k2.mul", F_CALC, wd, rd, *, d)
K2("k2.mul", F_CALC, wd, rd, *, i)
K2("k2.mul", F_CALC, wd, rd, *, b)
K2("k2.mul", F_CALC, wd, d, *, ld)
K2("k2.mul", F_CALC, wd, d, *, li)
K2("k2.mul", F_CALC, wd, d, *, lb)
K2("k2.mul", F_CALC, wd, d, *, lw)
K2("k2.mul", F_CALC, wd, d, *, rd)
K2("k2.mul", F_CALC, wd, i, *, ld)
K2("k2.mul", F_CALC, wd, i, *, li)
K2("k2.mul", F_CALC, wd, i, *, lb)
K2("k2.mul", F_CALC, wd, i, *, lw)
K2("k2.mul", F_CALC, wd, i, *, rd)
K2("k2.mul", F_CALC, wd, b, *, ld)
K2("k2.mul", F_CALC, wd, b, *, li)
K2("k2.mul", F_CALC, wd, b, *, lw)
K2("k2.mul", F_CALC, wd, b, *, rd)
#elif PART == 4
K2("k2.div", F_CALC, wd, ld, /, ld)
K2("k2.div", F_CALC, wd, ld, /, li)
K2("k2.div", F_CALC, wd, ld, /, lb)
K2("k2.div", F_CALC, wd, ld, /, lw)
K2("k2.div", F_CALC, wd, ld, /, rd)
K2("k2.div", F_CALC, wd, ld, /, d)
K2("k2.div", F_CALC, wd, ld, /, i)
K2("k2.div", F_CALC, wd, ld, /, b)
K2("k2.div", F_CALC, wd, li, /, ld)
K2("k2.div", F_CALC, wd, li, /, li)
K2("k2.div", F_CALC, wd, li, /, lb)
K2("k2.div", F_CALC, wd, li, /, lw)
K2("k2.div", F_CALC, wd, li, /, rd)
K2("k2.div", F_CALC, wd, li, /, d)
K2("k2.div", F_CALC, wd, li, /, i)
K2("k2.div", F_CALC, wd, li, /, b)
K2("k2.div", F_CALC, wd, lb, /, ld)
K2("k2.div", F_CALC, wd, lb, /, li)
K2("k2.div", F_CALC, wd, lb, /, lw)
K2("k2.div", F_CALC, wd, lb, /, rd)
K2("k2.div", F_CALC, wd, lb, /, d)
K2("k2.div", F_CALC, wd, lb, /, i)
K2("k2.div", F_CALC, wd, lw, /, ld)
K2("k2.div", F_CALC, wd, lw, /, li)
K2("k2.div", F_CALC, wd, lw, /, lb)
K2("k2.div", F_CALC, wd, lw, /, lw)
K2("k2.div", F_CALC, wd, lw, /, rd)
K2("k2.div", F_CALC, wd, lw, /, d)
K2("k2.div", F_CALC, wd, lw, /, i)
K2("k2.div", F_CALC, wd, lw, /, b)
K2("k2.div", F_CALC, wd, rd, /, ld)
K2("k2.div", F_CALC, wd, rd, /, li)
K2("k2.div", F_CALC, wd, rd, /, lb)
K2("k2.div", F_CALC, wd, rd, /, lw)
K2("k2.div", F_CALC, wd, rd, /, rd)
K2("k2.div", F_CALC, wd, rd, /, d)
K2("k2.div", F_CALC, wd, rd, /, i)
K2("k2.div", F_CALC, wd, rd, /, b)
K2("k2.div", F_CALC, wd, d, /, ld)
K2("k2.div", F_CALC, wd, d, /, li)
K2("k2.div", F_CALC, wd, d, /, lb)
K2("k2.div", F_CALC, wd, d, /, lw)
K2("k2.div", F_CALC, wd, d, /, rd)
K2("k2.div", F_CALC, wd, i, /, ld)
K2("k2.div", F_CALC, wd, i, /, li)
K2("k2.div", F_CALC, wd, i, /, lb)
K2("k2.div", F_CALC, wd, i, /, lw)
K2("k2.div", F_CALC, wd, i, /, rd)
K2("k2.div", F_CALC, wd, b, /, ld)
K2("k2.div", F_CALC, wd, b, /, li)
K2("k2.div", F_CALC, wd, b, /, lw)
K2("k2.div", F_CALC, wd, b, /, rd)
#elif PART == 5
K2("k2.pow", F_CALC, wd, ld, ^, ld)
K2("k2.pow", F_CALC, wd, ld, ^, li)
K2("k2.pow", F_CALC, wd, ld, ^, lb)
K2("k2.pow", F_CALC, wd, ld, ^, lw)
K2("k2.pow", F_CALC, wd, ld, ^, rd)
K2("k2.pow", F_CALC, wd, ld, ^, d)
K2("k2.pow", F_CALC, wd, ld, ^, i)
K2("k2.pow", F_CALC, wd, ld, ^, b)
K2("k2.pow", F_CALC, wd, li, ^, ld)
K2("k2.pow", F_CALC, wd, li, ^, lw)
K2("k2.pow", F_CALC, wd, li, ^, rd)
K2("k2.pow", F_CALC, wd, li, ^, d)
K2("k2.pow", F_CALC, wd, lb, ^, ld)
K2("k2.pow", F_CALC, wd, lb, ^, lw)
K2("k2.pow", F_CALC, wd, lb, ^, rd)
K2("k2.pow", F_CALC, wd, lb, ^, d)
K2("k2.pow", F_CALC, wd, lw, ^, ld)
K2("k2.pow", F_CALC, wd, lw, ^, li)
K2("k2.pow", F_CALC, wd, lw, ^, lb)
K2("k2.pow", F_CALC, wd, lw, ^, lw)
K2("k2.pow", F_CALC, wd, lw, ^, rd)
K2("k2.pow", F_CALC, wd, lw, ^, d)
K2("k2.pow", F_CALC, wd, lw, ^, i)
K2("k2.pow", F_CALC, wd, lw, ^, b)
K2("k2.pow", F_CALC, wd, rd, ^, ld)
K2("k2.pow", F_CALC, wd, rd, ^, li)
K2("k2.pow", F_CALC, wd, rd, ^, lb)
K2("k2.pow", F_CALC, wd, rd, ^, lw)
K2("k2.pow", F_CALC, wd, rd, ^, rd)
K2("k2.pow", F_CALC, wd, rd, ^, d)
K2("k2.pow", F_CALC, wd, rd, ^, i)
K2("k2.pow", F_CALC, wd, rd, ^, b)
K2("k2.pow", F_CALC, wd, d, ^, ld)
K2("k2.pow", F_CALC, wd, d, ^, li)
K2("k2.pow", F_CALC, wd, d, ^, lb)
K2("k2.pow", F_CALC, wd, d, ^, lw)
K2("k2.pow", F_CALC, wd, d, ^, rd)
K2("k2.pow", F_CALC, wd, i, ^, ld)
K2("k2.pow", F_CALC, wd, i, ^, lw)
K2("k2.pow", F_CALC, wd, i, ^, rd)
K2("k2.pow", F_CALC, wd, b, ^, ld)
K2("k2.pow", F_CALC, wd, b, ^, lw)
K2("k2.pow", F_CALC, wd, b, ^, rd)
#elif PART == 6
K2("k2.eq", F_CMP, wb, ld, ==, ld)
K2("k2.eq", F_CMP, wb, ld, ==, li)
K2("k2.eq", F_CMP, wb, ld, ==, lb)
K2("k2.eq", F_CMP, wb, ld, ==, lw)
K2("k2.eq", F_CMP, wb, ld, ==, rd)
K2("k2.eq", F_CMP, wb, ld, ==, d)
K2("k2.eq", F_CMP, wb, ld, ==, i)
K2("k2.eq", F_CMP, wb, ld, ==, b)
K2("k2.eq", F_CMP, wb, li, ==, ld)
K2("k2.eq", F_CMP, wb, li, ==, li)
K2("k2.eq", F_CMP, wb, li, ==, lb)
K2("k2.eq", F_CMP, wb, li, ==, lw)
K2("k2.eq", F_CMP, wb, li, ==, rd)
K2("k2.eq", F_CMP, wb, li, ==, d)
K2("k2.eq", F_CMP, wb, li, ==, i)
K2("k2.eq", F_CMP, wb, li, ==, b)
K2("k2.eq", F_CMP, wb, lb, ==, ld)
K2("k2.eq", F_CMP, wb, lb, ==, li)
K2("k2.eq", F_CMP, wb, lb, ==, lb)
K2("k2.eq", F_CMP, wb, lb, ==, lw)
K2("k2.eq", F_CMP, wb, lb, ==, rd)
K2("k2.eq", F_CMP, wb, lb, ==, d)
K2("k2.eq", F_CMP, wb, lb, ==, i)
K2("k2.eq", F_CMP, wb, lb, ==, b)
K2("k2.eq", F_CMP, wb, lw, ==, ld)
K2("k2.eq", F_CMP, wb, lw, ==, li)
K2("k2.eq", F_CMP, wb, lw, ==, lb)
K2("k2.eq", F_CMP, wb, lw, ==, lw)
K2("k2.eq", F_CMP, wb, lw, ==, rd)
K2("k2.eq", F_CMP, wb, lw, ==, d)
K2("k2.eq", F_CMP, wb, lw, ==, i)
K2("k2.eq", F_CMP, wb, lw, ==, b)
K2("k2.eq", F_CMP, wb, rd, ==, ld)
K2("k2.eq", F_CMP, wb, rd, ==, li)
K2("k2.eq", F_CMP, wb, rd, ==, lb)
K2("k2.eq", F_CMP, wb, rd, ==, lw)
K2("k2.eq", F_CMP, wb, rd, ==, rd)
K2("k2.eq", F_CMP, wb, rd, ==, d)
K2("k2.eq", F_CMP, wb, rd, ==, i)
K2("k2.eq", F_CMP, wb, rd, ==, b)
K2("k2.eq", F_CMP, wb, d, ==, ld)
K2("k2.eq", F_CMP, wb, d, ==, li)
K2("k2.eq", F_CMP, wb, d, ==, lb)
K2("k2.eq", F_CMP, wb, d, ==, lw)
K2("k2.eq", F_CMP, wb, d, ==, rd)
K2("k2.eq", F_CMP, wb, i, ==, ld)
K2("k2.eq", F_CMP, wb, i, ==, li)
K2("k2.eq", F_CMP, wb, i, ==, lb)
K2("k2.eq", F_CMP, wb, i, ==, lw)
K2("k2.eq", F_CMP, wb, i, ==, rd)
K2("k2.eq", F_CMP, wb, b, ==, ld)
K2("k2.eq", F_CMP, wb, b, ==, li)
K2("k2.eq", F_CMP, wb, b, ==, lb)
K2("k2.eq", F_CMP, wb, b, ==, lw)
K2("k2.eq", F_CMP, wb, b, ==, rd)
#elif PART == 7
K2("k2.ne", F_CMP, wb, ld, !=, ld)
K2("k2.ne", F_CMP, wb, ld, !=, li)
K2("k2.ne", F_CMP, wb, ld, !=, lb)
K2("k2.ne", F_CMP, wb, ld, !=, lw)
K2("k2.ne", F_CMP, wb, ld, !=, rd)
K2("k2.ne", F_CMP, wb, ld, !=, d)
K2("k2.ne", F_CMP, wb, ld, !=, i)
K2("k2.ne", F_CMP, wb, ld, !=, b)
K2("k2.ne", F_CMP, wb, li, !=, ld)
K2("k2.ne", F_CMP, wb, li, !=, li)
K2("k2.ne", F_CMP, wb, li, !=, lb)
K2("k2.ne", F_CMP, wb, li, !=, lw)
K2("k2.ne", F_CMP, wb, li, !=, rd)
K2("k2.ne", F_CMP, wb, li, !=, d)
K2("k2.ne", F_CMP, wb, li, !=, i)
K2("k2.ne", F_CMP, wb, li, !=, b)
K2("k2.ne", F_CMP, wb, lb, !=, ld)
K2("k2.ne", F_CMP, wb, lb, !=, li)
K2("k2.ne", F_CMP, wb, lb, !=, lb)
K2("k2.ne", F_CMP, wb, lb, !=, lw)
K2("k2.ne", F_CMP, wb, lb, !=, rd)
K2("k2.ne", F_CMP, wb, lb, !=, d)
K2("k2.ne", F_CMP, wb, lb, !=, i)
K2("k2.ne", F_CMP, wb, lb, !=, b)
K2("k2.ne", F_CMP, wb, lw, !=, ld)
K2("k2.ne", F_CMP, wb, lw, !=, li)
K2("k2.ne", F_CMP, wb, lw, !=, lb)
K2("k2.ne", F_CMP, wb, lw, !=, lw)
K2("k2.ne", F_CMP, wb, lw, !=, rd)
K2("k2.ne", F_CMP, wb, lw, !=, d)
K2("k2.ne", F_CMP, wb, lw, !=, i)
K2("k2.ne", F_CMP, wb, lw, !=, b)
K2("k2.ne", F_CMP, wb, rd, !=, ld)
K2("k2.ne", F_CMP, wb, rd, !=, li)
K2("k2.ne", F_CMP, wb, rd, !=, lb)
K2("k2.ne", F_CMP, wb, rd, !=, lw)
K2("k2.ne", F_CMP, wb, rd, !=, rd)
K2("k2.ne", F_CMP, wb, rd, !=, d)
K2("k2.ne", F_CMP, wb, rd, !=, i)
K2("k2.ne", F_CMP, wb, rd, !=, b)
K2("k2.ne", F_CMP, wb, d, !=, ld)
K2("k2.ne", F_CMP, wb, d, !=, li)
K2("k2.ne", F_CMP, wb, d, !=, lb)
K2("k2.ne", F_CMP, wb, d, !=, lw)
K2("k2.ne", F_CMP, wb, d, !=, rd)
K2("k2.ne", F_CMP, wb, i, !=, ld)
K2("k2.ne", F_CMP, wb, i, !=, li)
K2("k2.ne", F_CMP, wb, i, !=, lb)
K2("k2.ne", F_CMP, wb, i, !=, lw)
K2("k2.ne", F_CMP, wb, i, !=, rd)
K2("k2.ne", F_CMP, wb, b, !=, ld)
K2("k2.ne", F_CMP, wb, b, !=, li)
K2("k2.ne", F_CMP, wb, b, !=, lb)
K2("k2.ne", F_CMP, wb, b, !=, lw)
K2("k2.ne", F_CMP, wb, b, !=, rd)
#elif PART == 8
K2("k2.lt", F_CMP, wb, ld, <, ld)
K2("k2.lt", F_CMP, wb, ld, <, li)
K2("k2.lt", F_CMP, wb, ld, <, lb)
K2("k2.lt", F_CMP, wb, ld, <, lw)
K2("k2.lt", F_CMP, wb, ld, <, md)
K2("k2.lt", F_CMP, wb, ld, <, sdi)
K2("k2.lt", F_CMP, wb, ld, <, ri)
K2("k2.lt", F_CMP, wb, ld, <, rd)
K2("k2.lt", F_CMP, wb, ld, <, rb)
K2("k2.lt", F_CMP, wb, ld, <, xd)
K2("k2.lt", F_CMP, wb, ld, <, us)
K2("k2.lt", F_CMP, wb, ld, <, d)
K2("k2.lt", F_CMP, wb, ld, <, i)
K2("k2.lt", F_CMP, wb, ld, <, b)
K2("k2.lt", F_CMP, wb, li, <, ld)
K2("k2.lt", F_CMP, wb, li, <, li)
K2("k2.lt", F_CMP, wb, li, <, lb)
K2("k2.lt", F_CMP, wb, li, <, lw)
K2("k2.lt", F_CMP, wb, li, <, md)
K2("k2.lt", F_CMP, wb, li, <, sdi)
K2("k2.lt", F_CMP, wb, li, <, ri)
K2("k2.lt", F_CMP, wb, li, <, rd)
K2("k2.lt", F_CMP, wb, li, <, rb)
K2("k2.lt", F_CMP, wb, li, <, xd)
K2("k2.lt", F_CMP, wb, li, <, us)
K2("k2.lt", F_CMP, wb, li, <, d)
K2("k2.lt", F_CMP, wb, li, <, i)
K2("k2.lt", F_CMP, wb, li, <, b)
K2("k2.lt", F_CMP, wb, lb, <, ld)
K2("k2.lt", F_CMP, wb, lb, <, li)
K2("k2.lt", F_CMP, wb, lb, <, lb)
K2("k2.lt", F_CMP, wb, lb, <, lw)
K2("k2.lt", F_CMP, wb, lb, <, md)
K2("k2.lt", F_CMP, wb, lb, <, sdi)
K2("k2.lt", F_CMP, wb, lb, <, ri)
K2("k2.lt", F_CMP, wb, lb, <, rd)
K2("k2.lt", F_CMP, wb, lb, <, rb)
K2("k2.lt", F_CMP, wb, lb, <, xd)
K2("k2.lt", F_CMP, wb, lb, <, us)
K2("k2.lt", F_CMP, wb, lb, <, d)
K2("k2.lt", F_CMP, wb, lb, <, i)
K2("k2.lt", F_CMP, wb, lb, <, b)
K2("k2.lt", F_CMP, wb, lw, <, ld)
K2("k2.lt", F_CMP, wb, lw, <, li)
K2("k2.lt", F_CMP, wb, lw, <, lb)
K2("k2.lt", F_CMP, wb, lw, <, lw)
K2("k2.lt", F_CMP, wb, lw, <, md)
K2("k2.lt", F_CMP, wb, lw, <, sdi)
K2("k2.lt", F_CMP, wb, lw, <, ri)
K2("k2.lt", F_CMP, wb, lw, <, rd)
K2("k2.lt", F_CMP, wb, lw, <, rb)
K2("k2.lt", F_CMP, wb, lw, <, xd)
K2("k2.lt", F_CMP, wb, lw, <, us)
K2("k2.lt", F_CMP, wb, lw, <, d)
K2("k2.lt", F_CMP, wb, lw, <, i)
K2("k2.lt", F_CMP, wb, lw, <, b)
K2("k2.lt", F_CMP, wb, md, <, ld)
K2("k2.lt", F_CMP, wb, md, <, li)
K2("k2.lt", F_CMP, wb, md, <, lb)
K2("k2.lt", F_CMP, wb, md, <, lw)
K2("k2.lt", F_CMP, wb, md, <, md)
K2("k2.lt", F_CMP, wb, md, <, sdi)
K2("k2.lt", F_CMP, wb, md, <, ri)
K2("k2.lt", F_CMP, wb, md, <, rd)
K2("k2.lt", F_CMP, wb, md, <, rb)
K2("k2.lt", F_CMP, wb, md, <, xd)
K2("k2.lt", F_CMP, wb, md, <, us)
K2("k2.lt", F_CMP, wb, md, <, d)
K2("k2.lt", F_CMP, wb, md, <, i)
K2("k2.lt", F_CMP, wb, md, <, b)
K2("k2.lt", F_CMP, wb, sdi, <, ld)
K2("k2.lt", F_CMP, wb, sdi, <, li)
K2("k2.lt", F_CMP, wb, sdi, <, lb)
K2("k2.lt", F_CMP, wb, sdi, <, lw)
K2("k2.lt", F_CMP, wb, sdi, <, md)
K2("k2.lt", F_CMP, wb, sdi, <, sdi)
K2("k2.lt", F_CMP, wb, sdi, <, ri)
K2("k2.lt", F_CMP, wb, sdi, <, rd)
K2("k2.lt", F_CMP, wb, sdi, <, rb)
K2("k2.lt", F_CMP, wb, sdi, <, xd)
K2("k2.lt", F_CMP, wb, sdi, <, us)
K2("k2.lt", F_CMP, wb, sdi, <, d)
K2("k2.lt", F_CMP, wb, sdi, <, i)
K2("k2.lt", F_CMP, wb, sdi, <, b)
K2("k2.lt", F_CMP, wb, ri, <, ld)
K2("k2.lt", F_CMP, wb, ri, <, li)
K2("k2.lt", F_CMP, wb, ri, <, lb)
K2("k2.lt", F_CMP, wb, ri, <, lw)
K2("k2.lt", F_CMP, wb, ri, <, md)
K2("k2.lt", F_CMP, wb, ri, <, sdi)
K2("k2.lt", F_CMP, wb, ri, <, ri)
K2("k2.lt", F_CMP, wb, ri, <, rd)
K2("k2.lt", F_CMP, wb, ri, <, rb)
#elif PART == 9
K2("k2.lt", F_CMP, wb, ri, <, xd)
K2("k2.lt", F_CMP, wb, ri, <, us)
K2("k2.lt", F_CMP, wb, ri, <, d)
K2("k2.lt", F_CMP, wb, ri, <, i)
K2("k2.lt", F_CMP, wb, ri, <, b)
K2("k2.lt", F_CMP, wb, rd, <, ld)
K2("k2.lt", F_CMP, wb, rd, <, li)
K2("k2.lt", F_CMP, wb, rd, <, lb)
K2("k2.lt", F_CMP, wb, rd, <, lw)
K2("k2.lt", F_CMP, wb, rd, <, md)
K2("k2.lt", F_CMP, wb, rd, <, sdi)
K2("k2.lt", F_CMP, wb, rd, <, ri)
K2("k2.lt", F_CMP, wb, rd, <, rd)
K2("k2.lt", F_CMP, wb, rd, <, rb)
K2("k2.lt", F_CMP, wb, rd, <, xd)
K2("k2.lt", F_CMP, wb, rd, <, us)
K2("k2.lt", F_CMP, wb, rd, <, d)
K2("k2.lt", F_CMP, wb, rd, <, i)
K2("k2.lt", F_CMP, wb, rd, <, b)
K2("k2.lt", F_CMP, wb, rb, <, ld)
K2("k2.lt", F_CMP, wb, rb, <, li)
K2("k2.lt", F_CMP, wb, rb, <, lb)
K2("k2.lt", F_CMP, wb, rb, <, lw)
K2("k2.lt", F_CMP, wb, rb, <, md)
K2("k2.lt", F_CMP, wb, rb, <, sdi)
K2("k2.lt", F_CMP, wb, rb, <, ri)
K2("k2.lt", F_CMP, wb, rb, <, rd)
K2("k2.lt", F_CMP, wb, rb, <, rb)
K2("k2.lt", F_CMP, wb, rb, <, xd)
K2("k2.lt", F_CMP, wb, rb, <, us)
K2("k2.lt", F_CMP, wb, rb, <, d)
K2("k2.lt", F_CMP, wb, rb, <, i)
K2("k2.lt", F_CMP, wb, rb, <, b)
K2("k2.lt", F_CMP, wb, xd, <, ld)
K2("k2.lt", F_CMP, wb, xd, <, li)
K2("k2.lt", F_CMP, wb, xd, <, lb)
K2("k2.lt", F_CMP, wb, xd, <, lw)
K2("k2.lt", F_CMP, wb, xd, <, md)
K2("k2.lt", F_CMP, wb, xd, <, sdi)
K2("k2.lt", F_CMP, wb, xd, <, ri)
K2("k2.lt", F_CMP, wb, xd, <, rd)
K2("k2.lt", F_CMP, wb, xd, <, rb)
K2("k2.lt", F_CMP, wb, xd, <, xd)
K2("k2.lt", F_CMP, wb, xd, <, us)
K2("k2.lt", F_CMP, wb, xd, <, d)
K2("k2.lt", F_CMP, wb, xd, <, i)
K2("k2.lt", F_CMP, wb, xd, <, b)
K2("k2.lt", F_CMP, wb, us, <, ld)
K2("k2.lt", F_CMP, wb, us, <, li)
K2("k2.lt", F_CMP, wb, us, <, lb)
K2("k2.lt", F_CMP, wb, us, <, lw)
K2("k2.lt", F_CMP, wb, us, <, md)
K2("k2.lt", F_CMP, wb, us, <, sdi)
K2("k2.lt", F_CMP, wb, us, <, ri)
K2("k2.lt", F_CMP, wb, us, <, rd)
K2("k2.lt", F_CMP, wb, us, <, rb)
K2("k2.lt", F_CMP, wb, us, <, xd)
K2("k2.lt", F_CMP, wb, us, <, us)
K2("k2.lt", F_CMP, wb, us, <, d)
K2("k2.lt", F_CMP, wb, us, <, i)
K2("k2.lt", F_CMP, wb, us, <, b)
K2("k2.lt", F_CMP, wb, d, <, ld)
K2("k2.lt", F_CMP, wb, d, <, li)
K2("k2.lt", F_CMP, wb, d, <, lb)
K2("k2.lt", F_CMP, wb, d, <, lw)
K2("k2.lt", F_CMP, wb, d, <, md)
K2("k2.lt", F_CMP, wb, d, <, sdi)
K2("k2.lt", F_CMP, wb, d, <, ri)
K2("k2.lt", F_CMP, wb, d, <, rd)
K2("k2.lt", F_CMP, wb, d, <, rb)
K2("k2.lt", F_CMP, wb, d, <, xd)
K2("k2.lt", F_CMP, wb, d, <, us)
K2("k2.lt", F_CMP, wb, i, <, ld)
K2("k2.lt", F_CMP, wb, i, <, li)
K2("k2.lt", F_CMP, wb, i, <, lb)
K2("k2.lt", F_CMP, wb, i, <, lw)
K2("k2.lt", F_CMP, wb, i, <, md)
K2("k2.lt", F_CMP, wb, i, <, sdi)
K2("k2.lt", F_CMP, wb, i, <, ri)
K2("k2.lt", F_CMP, wb, i, <, rd)
K2("k2.lt", F_CMP, wb, i, <, rb)
K2("k2.lt", F_CMP, wb, i, <, xd)
K2("k2.lt", F_CMP, wb, i, <, us)
K2("k2.lt", F_CMP, wb, b, <, ld)
K2("k2.lt", F_CMP, wb, b, <, li)
K2("k2.lt", F_CMP, wb, b, <, lb)
K2("k2.lt", F_CMP, wb, b, <, lw)
K2("k2.lt", F_CMP, wb, b, <, md)
K2("k2.lt", F_CMP, wb, b, <, sdi)
K2("k2.lt", F_CMP, wb, b, <, ri)
K2("k2.lt", F_CMP, wb, b, <, rd)
K2("k2.lt", F_CMP, wb, b, <, rb)
K2("k2.lt", F_CMP, wb, b, <, xd)
K2("k2.lt", F_CMP, wb, b, <, us)
#elif PART == 10
K2("k2.le", F_CMP, wb, ld, <=, ld)
K2("k2.le", F_CMP, wb, ld, <=, li)
K2("k2.le", F_CMP, wb, ld, <=, lb)
K2("k2.le", F_CMP, wb, ld, <=, lw)
K2("k2.le", F_CMP, wb, ld, <=, rd)
K2("k2.le", F_CMP, wb, ld, <=, d)
K2("k2.le", F_CMP, wb, ld, <=, i)
K2("k2.le", F_CMP, wb, ld, <=, b)
K2("k2.le", F_CMP, wb, li, <=, ld)
K2("k2.le", F_CMP, wb, li, <=, li)
K2("k2.le", F_CMP, wb, li, <=, lb)
K2("k2.le", F_CMP, wb, li, <=, lw)
K2("k2.le", F_CMP, wb, li, <=, rd)
K2("k2.le", F_CMP, wb, li, <=, d)
K2("k2.le", F_CMP, wb, li, <=, i)
K2("k2.le", F_CMP, wb, li, <=, b)
K2("k2.le", F_CMP, wb, lb, <=, ld)
K2("k2.le", F_CMP, wb, lb, <=, li)
K2("k2.le", F_CMP, wb, lb, <=, lb)
K2("k2.le", F_CMP, wb, lb, <=, lw)
K2("k2.le", F_CMP, wb, lb, <=, rd)
K2("k2.le", F_CMP, wb, lb, <=, d)
K2("k2.le", F_CMP, wb, lb, <=, i)
K2("k2.le", F_CMP, wb, lb, <=, b)
K2("k2.le", F_CMP, wb, lw, <=, ld)
K2("k2.le", F_CMP, wb, lw, <=, li)
K2("k2.le", F_CMP, wb, lw, <=, lb)
K2("k2.le", F_CMP, wb, lw, <=, lw)
K2("k2.le", F_CMP, wb, lw, <=, rd)
K2("k2.le", F_CMP, wb, lw, <=, d)
K2("k2.le", F_CMP, wb, lw, <=, i)
K2("k2.le", F_CMP, wb, lw, <=, b)
K2("k2.le", F_CMP, wb, rd, <=, ld)
K2("k2.le", F_CMP, wb, rd, <=, li)
K2("k2.le", F_CMP, wb, rd, <=, lb)
K2("k2.le", F_CMP, wb, rd, <=, lw)
K2("k2.le", F_CMP, wb, rd, <=, rd)
K2("k2.le", F_CMP, wb, rd, <=, d)
K2("k2.le", F_CMP, wb, rd, <=, i)
K2("k2.le", F_CMP, wb, rd, <=, b)
K2("k2.le", F_CMP, wb, d, <=, ld)
K2("k2.le", F_CMP, wb, d, <=, li)
K2("k2.le", F_CMP, wb, d, <=, lb)
K2("k2.le", F_CMP, wb, d, <=, lw)
K2("k2.le", F_CMP, wb, d, <=, rd)
K2("k2.le", F_CMP, wb, i, <=, ld)
K2("k2.le", F_CMP, wb, i, <=, li)
K2("k2.le", F_CMP, wb, i, <=, lb)
K2("k2.le", F_CMP, wb, i, <=, lw)
K2("k2.le", F_CMP, wb, i, <=, rd)
K2("k2.le", F_CMP, wb, b, <=, ld)
K2("k2.le", F_CMP, wb, b, <=, li)
K2("k2.le", F_CMP, wb, b, <=, lb)
K2("k2.le", F_CMP, wb, b, <=, lw)
K2("k2.le", F_CMP, wb, b, <=, rd)
#elif PART == 11
K2("k2.gt", F_CMP, wb, ld, >, ld)
K2("k2.gt", F_CMP, wb, ld, >, li)
K2("k2.gt", F_CMP, wb, ld, >, lb)
K2("k2.gt", F_CMP, wb, ld, >, lw)
K2("k2.gt", F_CMP, wb, ld, >, rd)
K2("k2.gt", F_CMP, wb, ld, >, d)
K2("k2.gt", F_CMP, wb, ld, >, i)
K2("k2.gt", F_CMP, wb, ld, >, b)
K2("k2.gt", F_CMP, wb, li, >, ld)
K2("k2.gt", F_CMP, wb, li, >, li)
K2("k2.gt", F_CMP, wb, li, >, lb)
K2("k2.gt", F_CMP, wb, li, >, lw)
K2("k2.gt", F_CMP, wb, li, >, rd)
K2("k2.gt", F_CMP, wb, li, >, d)
K2("k2.gt", F_CMP, wb, li, >, i)
K2("k2.gt", F_CMP, wb, li, >, b)
K2("k2.gt", F_CMP, wb, lb, >, ld)
K2("k2.gt", F_CMP, wb, lb, >, li)
K2("k2.gt", F_CMP, wb, lb, >, lb)
K2("k2.gt", F_CMP, wb, lb, >, lw)
K2("k2.gt", F_CMP, wb, lb, >, rd)
K2("k2.gt", F_CMP, wb, lb, >, d)
K2("k2.gt", F_CMP, wb, lb, >, i)
K2("k2.gt", F_CMP, wb, lb, >, b)
K2("k2.gt", F_CMP, wb, lw, >, ld)
K2("k2.gt", F_CMP, wb, lw, >, li)
K2("k2.gt", F_CMP, wb, lw, >, lb)
K2("k2.gt", F_CMP, wb, lw, >, lw)
K2("k2.gt", F_CMP, wb, lw, >, rd)
K2("k2.gt", F_CMP, wb, lw, >, d)
K2("k2.gt", F_CMP, wb, lw, >, i)
K2("k2.gt", F_CMP, wb, lw, >, b)
K2("k2.gt", F_CMP, wb, rd, >, ld)
K2("k2.gt", F_CMP, wb, rd, >, li)
K2("k2.gt", F_CMP, wb, rd, >, lb)
K2("k2.gt", F_CMP, wb, rd, >, lw)
K2("k2.gt", F_CMP, wb, rd, >, rd)
K2("k2.gt", F_CMP, wb, rd, >, d)
K2("k2.gt", F_CMP, wb, rd, >, i)
K2("k2.gt", F_CMP, wb, rd, >, b)
K2("k2.gt", F_CMP, wb, d, >, ld)
K2("k2.gt", F_CMP, wb, d, >, li)
K2("k2.gt", F_CMP, wb, d, >, lb)
K2("k2.gt", F_CMP, wb, d, >, lw)
K2("k2.gt", F_CMP, wb, d, >, rd)
K2("k2.gt", F_CMP, wb, i, >, ld)
K2("k2.gt", F_CMP, wb, i, >, li)
K2("k2.gt", F_CMP, wb, i, >, lb)
K2("k2.gt", F_CMP, wb, i, >, lw)
K2("k2.gt", F_CMP, wb, i, >, rd)
K2("k2.gt", F_CMP, wb, b, >, ld)
K2("k2.gt", F_CMP, wb, b, >, li)
K2("k2.gt", F_CMP, wb, b, >, lb)
K2("k2.gt", F_CMP, wb, b, >, lw)
K2("k2.gt", F_CMP, wb, b, >, rd)
#elif PART == 12
K2("k2.ge", F_CMP, wb, ld, >=, ld)
K2("k2.ge", F_CMP, wb, ld, >=, li)
K2("k2.ge", F_CMP, wb, ld, >=, lb)
K2("k2.ge", F_CMP, wb, ld, >=, lw)
K2("k2.ge", F_CMP, wb, ld, >=, rd)
K2("k2.ge", F_CMP, wb, ld, >=, d)
K2("k2.ge", F_CMP, wb, ld, >=, i)
K2("k2.ge", F_CMP, wb, ld, >=, b)
K2("k2.ge", F_CMP, wb, li, >=, ld)
K2("k2.ge", F_CMP, wb, li, >=, li)
K2("k2.ge", F_CMP, wb, li, >=, lb)
K2("k2.ge", F_CMP, wb, li, >=, lw)
K2("k2.ge", F_CMP, wb, li, >=, rd)
K2("k2.ge", F_CMP, wb, li, >=, d)
K2("k2.ge", F_CMP, wb, li, >=, i)
K2("k2.ge", F_CMP, wb, li, >=, b)
K2("k2.ge", F_CMP, wb, lb, >=, ld)
K2("k2.ge", F_CMP, wb, lb, >=, li)
K2("k2.ge", F_CMP, wb, lb, >=, lb)
K2("k2.ge", F_CMP, wb, lb, >=, lw)
K2("k2.ge", F_CMP, wb, lb, >=, rd)
K2("k2.ge", F_CMP, wb, lb, >=, d)
K2("k2.ge", F_CMP, wb, lb, >=, i)
K2("k2.ge", F_CMP, wb, lb, >=, b)
K2("k2.ge", F_CMP, wb, lw, >=, ld)
K2("k2.ge", F_CMP, wb, lw, >=, li)
K2("k2.ge", F_CMP, wb, lw, >=, lb)
K2("k2.ge", F_CMP, wb, lw, >=, lw)
K2("k2.ge", F_CMP, wb, lw, >=, rd)
K2("k2.ge", F_CMP, wb, lw, >=, d)
K2("k2.ge", F_CMP, wb, lw, >=, i)
K2("k2.ge", F_CMP, wb, lw, >=, b)
K2("k2.ge", F_CMP, wb, rd, >=, ld)
K2("k2.ge", F_CMP, wb, rd, >=, li)
K2("k2.ge", F_CMP, wb, rd, >=, lb)
K2("k2.ge", F_CMP, wb, rd, >=, lw)
K2("k2.ge", F_CMP, wb, rd, >=, rd)
K2("k2.ge", F_CMP, wb, rd, >=, d)
K2("k2.ge", F_CMP, wb, rd, >=, i)
K2("k2.ge", F_CMP, wb, rd, >=, b)
K2("k2.ge", F_CMP, wb, d, >=, ld)
K2("k2.ge", F_CMP, wb, d, >=, li)
K2("k2.ge", F_CMP, wb, d, >=, lb)
K2("k2.ge", F_CMP, wb, d, >=, lw)
K2("k2.ge", F_CMP, wb, d, >=, rd)
K2("k2.ge", F_CMP, wb, i, >=, ld)
K2("k2.ge", F_CMP, wb, i, >=, li)
K2("k2.ge", F_CMP, wb, i, >=, lb)
K2("k2.ge", F_CMP, wb, i, >=, lw)
K2("k2.ge", F_CMP, wb, i, >=, rd)
K2("k2.ge", F_CMP, wb, b, >=, ld)
K2("k2.ge", F_CMP, wb, b, >=, li)
K2("k2.ge", F_CMP, wb, b, >=, lb)
K2("k2.ge", F_CMP, wb, b, >=, lw)
K2("k2.ge", F_CMP, wb, b, >=, rd)
#endif
} // namespace NS
