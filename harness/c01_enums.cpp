// C01: the library's enumerators carry the code points VITA 49.2 assigns them (written out from the standard's tables).
#include "vt.hpp"
#include <string>
#include <vrtgen/packing/enums.hpp>
#include <vrtgen/packing/cif1.hpp>
using namespace vrtgen::packing;

template <class E> static void code(const char* name, E e, unsigned want)
{
    ++vt::stats.states; ++vt::stats.transitions;
    if (static_cast<unsigned>(e) != want)
        vt::violation(std::string("enumerator:") + name, std::string(name) + " is " + std::to_string(static_cast<unsigned>(e)) + ", the standard's code is " + std::to_string(want));
}
#define CODE(E, N, V) code(#E "::" #N, E::N, V)

int main()
{
    vt::install();
    CODE(PacketType, SIGNAL_DATA, 0);
    CODE(PacketType, SIGNAL_DATA_STREAM_ID, 1);
    CODE(PacketType, EXTENSION_DATA, 2);
    CODE(PacketType, EXTENSION_DATA_STREAM_ID, 3);
    CODE(PacketType, CONTEXT, 4);
    CODE(PacketType, EXTENSION_CONTEXT, 5);
    CODE(PacketType, COMMAND, 6);
    CODE(PacketType, EXTENSION_COMMAND, 7);
    CODE(TSI, NONE, 0);
    CODE(TSI, UTC, 1);
    CODE(TSI, GPS, 2);
    CODE(TSI, OTHER, 3);
    CODE(TSF, NONE, 0);
    CODE(TSF, SAMPLE_COUNT, 1);
    CODE(TSF, REAL_TIME, 2);
    CODE(TSF, FREE_RUNNING, 3);
    CODE(TSM, FINE, 0);
    CODE(TSM, COARSE, 1);
    CODE(SPECTRUM_OR_TIME, TIME, 0);
    CODE(SPECTRUM_OR_TIME, SPECTRUM, 1);
    CODE(IdentifierFormat, WORD, 0);
    CODE(IdentifierFormat, UUID, 1);
    CODE(ActionMode, NO_ACTION, 0);
    CODE(ActionMode, DRY_RUN, 1);
    CODE(ActionMode, EXECUTE, 2);
    CODE(TimestampControlMode, IGNORE, 0);
    CODE(TimestampControlMode, DEVICE, 1);
    CODE(TimestampControlMode, LATE, 2);
    CODE(TimestampControlMode, EARLY, 3);
    CODE(TimestampControlMode, EARLY_LATE, 4);
    CODE(TimestampControlMode, TIMING_ISSUES, 7);
    CODE(AGCMode, MGC, 0);
    CODE(AGCMode, AGC, 1);
    CODE(DataItemFormat, SIGNED_FIXED, 0);
    CODE(DataItemFormat, SIGNED_VRT_1, 1);
    CODE(DataItemFormat, SIGNED_VRT_2, 2);
    CODE(DataItemFormat, SIGNED_VRT_3, 3);
    CODE(DataItemFormat, SIGNED_VRT_4, 4);
    CODE(DataItemFormat, SIGNED_VRT_5, 5);
    CODE(DataItemFormat, SIGNED_VRT_6, 6);
    CODE(DataItemFormat, SIGNED_FIXED_NON_NORMALIZED, 7);
    CODE(DataItemFormat, IEEE754_HALF_PRECISION, 13);
    CODE(DataItemFormat, IEEE754_SINGLE_PRECISION, 14);
    CODE(DataItemFormat, IEEE754_DOUBLE_PRECISION, 15);
    CODE(DataItemFormat, UNSIGNED_FIXED, 16);
    CODE(DataItemFormat, UNSIGNED_VRT_1, 17);
    CODE(DataItemFormat, UNSIGNED_VRT_2, 18);
    CODE(DataItemFormat, UNSIGNED_VRT_3, 19);
    CODE(DataItemFormat, UNSIGNED_VRT_4, 20);
    CODE(DataItemFormat, UNSIGNED_VRT_5, 21);
    CODE(DataItemFormat, UNSIGNED_VRT_6, 22);
    CODE(DataItemFormat, UNSIGNED_FIXED_NON_NORMALIZED, 23);
    CODE(DataSampleType, REAL, 0);
    CODE(DataSampleType, COMPLEX_CARTESIAN, 1);
    CODE(DataSampleType, COMPLEX_POLAR, 2);
    CODE(EntrySize, EIGHT_BIT, 1);
    CODE(EntrySize, SIXTEEN_BIT, 2);
    CODE(EntrySize, THIRTY_TWO_BIT, 4);
    CODE(PackingMethod, PROCESSING_EFFICIENT, 0);
    CODE(PackingMethod, LINK_EFFICIENT, 1);
    CODE(SSI, SINGLE, 0);
    CODE(SSI, FIRST, 1);
    CODE(SSI, MIDDLE, 2);
    CODE(SSI, FINAL, 3);
    CODE(V49StandardCompliance, V49_0, 1);
    CODE(V49StandardCompliance, V49_1, 2);
    CODE(V49StandardCompliance, V49_A, 3);
    CODE(V49StandardCompliance, V49_2, 4);
    CODE(SpectrumType, NONE, 0);
    CODE(SpectrumType, LOG_POWER, 1);
    CODE(SpectrumType, CARTESIAN, 2);
    CODE(SpectrumType, POLAR, 3);
    CODE(SpectrumType, MAGNITUDE, 4);
    CODE(AveragingType, NONE, 0);
    CODE(AveragingType, LINEAR, 1);
    CODE(AveragingType, PEAK_HOLD, 2);
    CODE(AveragingType, MIN_HOLD, 4);
    CODE(AveragingType, EXPONENTIAL, 8);
    CODE(AveragingType, MEDIAN, 16);
    CODE(AveragingType, SMOOTHING, 32);
    CODE(WindowTimeDelta, NONE, 0);
    CODE(WindowTimeDelta, PERCENT, 1);
    CODE(WindowTimeDelta, SAMPLES, 2);
    CODE(WindowTimeDelta, TIME, 3);
    CODE(WindowType, RECTANGLE, 0);
    CODE(WindowType, TRIANGLE, 1);
    CODE(WindowType, HANNING_ALPHA_1, 2);
    CODE(WindowType, HANNING_ALPHA_2, 3);
    CODE(WindowType, HANNING_ALPHA_3, 4);
    CODE(WindowType, HANNING_ALPHA_4, 5);
    CODE(WindowType, HAMMING, 6);
    CODE(WindowType, RIESZ, 7);
    CODE(WindowType, RIEMANN, 8);
    CODE(WindowType, DE_LA_VALLEPOUSSIN, 9);
    CODE(WindowType, TUKEY_POINT_25, 10);
    CODE(WindowType, TUKEY_POINT_50, 11);
    CODE(WindowType, TUKEY_POINT_75, 12);
    CODE(WindowType, BOHMAN, 13);
    CODE(WindowType, POISSON_2, 14);
    CODE(WindowType, POISSON_3, 15);
    CODE(WindowType, POISSON_4, 16);
    CODE(WindowType, HANNING_POISSON_POINT_50, 17);
    CODE(WindowType, HANNING_POISSON_1, 18);
    CODE(WindowType, HANNING_POISSON_2, 19);
    CODE(WindowType, CAUCHY_3, 20);
    CODE(WindowType, CAUCHY_4, 21);
    CODE(WindowType, CAUCHY_5, 22);
    CODE(WindowType, GAUSSIAN_2_POINT_50, 23);
    CODE(WindowType, GAUSSIAN_3, 24);
    CODE(WindowType, GAUSSIAN_3_POINT_50, 25);
    CODE(WindowType, DOLPH_CHEBYSHEV_2_POINT_50, 26);
    CODE(WindowType, DOLPH_CHEBYSHEV_3, 27);
    CODE(WindowType, DOLPH_CHEBYSHEV_3_POINT_50, 28);
    CODE(WindowType, DOLPH_CHEBYSHEV_4, 29);
    CODE(WindowType, KAISER_BESSEL_2, 30);
    CODE(WindowType, KAISER_BESSEL_2_POINT_50, 31);
    CODE(WindowType, KAISER_BESSEL_3, 32);
    CODE(WindowType, KAISER_BESSEL_3_POINT_50, 33);
    CODE(WindowType, BARCILON_TEMES_3, 34);
    CODE(WindowType, BARCILON_TEMES_3_POINT_50, 35);
    CODE(WindowType, BARCILON_TEMES_4, 36);
    CODE(WindowType, EXACT_BLACKMAN, 37);
    CODE(WindowType, BLACKMAN, 38);
    CODE(WindowType, MIN_THREE_SAMPLE_BLACKMAN_HARRIS, 39);
    CODE(WindowType, MIN_FOUR_SAMPLE_BLACKMAN_HARRIS, 40);
    CODE(WindowType, THREE_SAMPLE_BLACKMAN_HARRIS_61DB, 41);
    CODE(WindowType, FOUR_SAMPLE_BLACKMAN_HARRIS_74DB, 42);
    CODE(WindowType, FOUR_SAMPLE_KAISER_BESSEL, 43);
    vt::finish();
}
