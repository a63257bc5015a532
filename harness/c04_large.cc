#include "mc/c04_field.h"
#include "mc/fields/l127.h"
#include "mc/fields/l192.h"
#include "mc/fields/l256.h"
#include "mc/fields/l320.h"
#include "mc/fields/l33.h"
#include "mc/fields/l448.h"
#include "mc/fields/l512.h"
#include "mc/fields/l521.h"
#include "mc/fields/l576.h"
#include "mc/fields/l63.h"
#include "mc/fields/x128.h"
#include "mc/fields/x33.h"
#include "mc/fields/x41.h"
#include "mc/fields/x64.h"
#include "mc/fields/xgold.h"
#define G(F, n) MC_SECTION(large_##F, n) { Large<F>(c); }
G(L33, 1) G(L63, 1) G(L127, 2) G(L192, 4) G(L256, 3) G(L320, 3) G(L448, 2) G(L512, 2) G(L521, 4) G(L576, 4) G(X33, 1) G(X41, 1) G(X64, 1) G(X128, 2) G(XGold, 1)
