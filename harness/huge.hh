// Instances far beyond the sizes the other generators reach.
#pragma once
#include "drive.hh"

namespace huge {

//! Whether to switch to such an instance (never while fuzzing, where cases have to be small).
bool chance(pbt::Case &c, int odds);
//! Every reported answer satisfies all constraints.
void witness(pbt::Case &c);
//! No answer is lost or invented.
void complete(pbt::Case &c);
//! Options do not affect the answers.
void options(pbt::Case &c);

//! As complete and witness but with several threads.
void threads(pbt::Case &c);

} // namespace huge
