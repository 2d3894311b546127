// The squaring driver: a form stands for the number of squarings applied to it (its a
// coefficient); the fast engine performs an arbitrary part of each batch or reports corruption.
// VP_FLAGS: -DFAST_MACHINE=1 -DCHIA_DISABLE_ASM -fno-access-control
// VP_STUB: ^vdf_original::square\( -> stub_square
// VP_STUB: ^vdf_original::vdf_original\( -> stub_vdfo
// VP_STUB: ^vdf_original::~vdf_original\( -> stub_vdfo
// VP_STUB: ^WesolowskiCallback::WesolowskiCallback\( -> stub_wctor
// VP_STUB: ^TwoWesolowskiCallback::TwoWesolowskiCallback\( -> stub_twctor
// VP_STUB: ^FastAlgorithmCallback::FastAlgorithmCallback\( -> stub_factor
// VP_STUB: ^FastStorage::SubmitCheckpoint\( -> stub_submit
// VP_STUB: ^TwoWesolowskiCallback::IncreaseConstants\( -> stub_increase
// VP_STUB: ^nudupl_form\( -> stub_nudupl
// VP_STUB: ^WesolowskiCallback::reduce\( -> stub_reduce
#include "drive.inc"
