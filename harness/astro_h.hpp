// every header of the library except its main()
#pragma once
#include "vif_h.hpp"
#include <vif/core/vec.hpp>
#include <vif/core/range.hpp>
#include <vif/core/print.hpp>
#include <vif/core/error.hpp>
#include <vif/utility/string.hpp>
#include <vif/utility/argv.hpp>
#include <vif/utility/os.hpp>
#include <vif/utility/time.hpp>
#include <vif/utility/thread.hpp>
#include <vif/utility/generic.hpp>
#include <vif/reflex/reflex.hpp>
#include <vif/reflex/reflex_helpers.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/ascii.hpp>
#include <vif/io/fits.hpp>
#include <vif/math/base.hpp>
#include <vif/math/interpolate.hpp>
#include <vif/math/reduce.hpp>
#include <vif/math/histogram.hpp>
#include <vif/math/random.hpp>
#include <vif/math/matrix.hpp>
#include <vif/math/linfit.hpp>
#include <vif/math/convex_hull.hpp>
#include <vif/math/complex.hpp>
#include <vif/math/fourier.hpp>
#include <vif/math/transform.hpp>
#include <vif/astro/image.hpp>
#include <vif/astro/astro.hpp>
#include <vif/astro/wcs.hpp>
