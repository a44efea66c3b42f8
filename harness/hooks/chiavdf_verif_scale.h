// Included by callback.h right after the 2-weso limits: divides them by VERIF_SCALE for everything that follows.
#pragma once
#if VERIF_SCALE > 1
#define kMaxItersAllowed (kMaxItersAllowed / VERIF_SCALE)
#define kSwitchIters (kSwitchIters / VERIF_SCALE)
#endif
