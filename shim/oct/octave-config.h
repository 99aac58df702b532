#pragma once
typedef long octave_idx_type;
