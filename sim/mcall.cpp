#include "core.h"
#include "model.h"
int model_call(OpFn f, void *w, const int *a, Out &o) {
  try {
    f(w, a, o);
    return 1;
  } catch (const mdl::Err &) {
    return 2;
  } catch (const mdl::Skip &) {
    return 3;
  }
}
