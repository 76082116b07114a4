"""Writes known_findings.json from the table below.  Run: python3 tools/findings.py"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
T01 18b03a9 read_a0/sread_a0 went through float64, losing the lowest bits of times beyond 53 bits
T01 1956f26 read_a2/sread_a2 failed on events with the top bit set
T01 53c9a16 read_a2 failed on a file with a single event
T07 c4ce2f4 the statistics report failed when no events were left
T07 d982616 the statistics report failed when all events share one time
E01 cf89302 write_T1 corrupted or rejected events given as numpy integers
E02 5251396 read_T2 accumulated in float64 and failed for whole-unit times
E05 1daeb6a read_T2/read_T4 never returned on a truncated file
E05 953f111 read_T1 accepted half an event at the end of a truncated file
E06 69b0b03 get_timestamp went back in time when the 17-bit epoch counter wraps
C02 b4f3d16 freqcd applied the last correction again when a read completed no event
C03 d2dd00c freqcd lost the start of frequency values split across reads
C03 ef18bac freqcd accepted frequency values that overflow an int
C05 7bc434c freqcd -f accepted non-integers and values that overflow an int
C04 aa90c9c freqcd miscorrected all events after the raw times rolled over
C05 77365cb freqcd cut file names at whitespace and overflowed its buffers on long ones
C02 516c89a freqcd lost up to all of the correction when reads held few events
G01 9a6ff7e generate_freqcd_testcase ignored -x when writing
G01 d879189 generate_freqcd_testcase overwrote the file it was asked to read
F02 8df6db0 the inverted time compensation was scaled the wrong way by the skew
F08 ae62bab slice_timestamps raised IndexError when no times were left
F09 096f781 PeakStatistics.significance_raw always raised
F09 237e977 get_statistics rejected peak positions at fractional bin widths
F05 7b27c36 --precomp-fullscan reported no peak even when peaks were found
G04 ca0ec9d the first call of freqcd looked for its files in the package directory
F06 65670a9 histogram_fft always raised, and shifted its arguments in place
L03 e765ed4 formatting the help of positional arguments printed debug output
F10 2092d88 fpfind did not end with separations around 1.41
F10 2f91b55 fpfind printed an undefined skew as a result
G04 fd9a901 freqcd called by a relative path was compiled into the wrong place
T04 8f87c29 converting a file onto itself in streaming mode destroyed it
C05 dc3caf3 freqcd destroyed its input when it was named as output too
F01 7627f94 fpfind gave an accepted peak up with 'Array is empty!' once bins had been merged four times
"""


def main():
    out = []
    for line in FIXED.strip().splitlines():
        pid, commit, what = line.split(" ", 2)
        out.append({"property": pid, "status": "fixed",
                    "what": f"fixed: property={pid} {commit} {what}"})
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")


main()
