#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The properties are kept here as Python so they are easy to edit."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "Sample-format conversions are exact for every sample",
     """Every sample-format conversion writes, for each index up to the shorter of input and output, exactly the defined
     value: unsigned 8-bit samples are offset by -128, signed ones keep their value, 8-to-16-bit expansion repeats the byte in
     both halves, byte streams are little-endian, integers become scale*value, floats become scale*value truncated toward
     zero (for results that fit the target type), and complex forms are interleaved I,Q. It does so for every length, for every
     sample value and scale and in every CPU mode.""",
     ["inputs", "configurations"],
     """All lengths (including every remainder around the 16/32/64-sample SIMD blocks and 0), all sample values, scales, and
     the CPU modes baseline, SSE2, SSE4.1, AVX and portable.""",
     """The tests use a few fixed buffers and lengths; a lane, tail or block error shows only at particular
     length/position/value combinations.""",
     ["dsp/conversion.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/conversion_386.s"],
     [("portable loops", "dsp/conversion.go"), ("SIMD blocks plus scalar tails", "dsp/conversion_amd64.s")],
     ["output slices of Ui8toi16, Ui8toi16b, Ui8tof32, I8tof32, Ui8toc64, I8toc64, C64toi8, F32toi16, F32toi16ble, I16ToBLE, I16bleToF64, I16bleToF32, I32bleToF32, F32Tof32ble"])

prop("C02", "Bulk routines never touch memory outside the slices they are given",
     """For any combination of lengths (empty, unequal, odd) and any alignment, the bulk conversion and vector routines neither
     read nor write outside the memory of the slices they are given and do not panic. They leave their input slices unmodified, and
     leave every output element beyond the processed count (the shorter of what input and output allow) unmodified.""",
     ["inputs", "configurations"],
     """All length pairs/triples and alignments, all buffer contents, all CPU modes.""",
     """Overreads and overwrites by SIMD code are invisible to ordinary tests because the neighbouring heap memory is mapped
     and rarely checked; unequal and empty lengths are hardly tested.""",
     ["dsp/conversion.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/math32.go", "dsp/math32_amd64.s"],
     [("minimum-length computation", "dsp/conversion_amd64.s"), ("block/tail split", "dsp/math32_amd64.s")],
     ["memory faults at guard pages around the slices", "canaries before, after and between the slices", "panics"])

prop("C03", "Results do not depend on CPU features, alignment, position or splitting",
     """For the element-wise routines and extrema the result for an element depends only on that element: the same data gives
     bit-identical results in every CPU mode (baseline, SSE2, SSE4.1, AVX, portable 386 build), at every slice alignment and when
     the buffer is processed in pieces instead of at once. A program using every exported routine links on every architecture the package has
     assembly for (amd64, 386, arm, arm64; Linux, Windows and macOS).""",
     ["inputs", "configurations"],
     """All buffers, alignments and split points; CPU modes and target architectures.""",
     """The tests run in one CPU mode, on one architecture and with fixed buffers.""",
     ["dsp/cpu_amd64.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s", "dsp/math32_amd64.s", "dsp/conversion_386.s", "dsp/math32_386.s"],
     [("feature flags select the code path", "dsp/cpu_amd64.go")],
     ["digests of the outputs per CPU mode", "outputs of split and shifted calls"])

prop("C04", "Conversions are mutually consistent and round-trip",
     """Converting 16-bit integers to little-endian bytes and on to floats and back returns the original values, signed 8-bit I/Q
     survives conversion to complex and back, and float bytes carry the exact bit patterns. The byte-producing and word-producing,
     real and complex, and signed and offset-unsigned variants of a conversion agree with each other on the same samples.""",
     ["inputs"],
     """All sample values and buffer lengths, in every CPU mode.""",
     """The tests compare each routine with fixed expectations and never chain or cross-compare routines.""",
     ["dsp/conversion.go", "dsp/conversion_amd64.s", "dsp/conversion_avo_amd64.s"],
     [("conversion routines", "dsp/conversion.go")],
     ["outputs of chained conversions"])

prop("C05", "Vector arithmetic is element-wise exact",
     """Vector add accumulates input into output, vector multiply and scale give the product of the matching elements, and vector
     magnitude gives the modulus of each complex element, for every element up to the shortest slice; conjugation negates only the
     imaginary part. The result for scale and multiply is the same when output and input are the same slice.""",
     ["inputs", "configurations"],
     """All lengths, element values and scale factors, separate or identical input and output, in every CPU mode.""",
     """The tests check one length with one data pattern.""",
     ["dsp/math32.go", "dsp/math32_amd64.s"],
     [("portable loops", "dsp/math32.go"), ("SIMD scale", "dsp/math32_amd64.s")],
     ["outputs of VMulC64xF32, VMulC64, VAddF32, VAddC64, VScaleC64, VScaleF32, VAbsC64, Conj32"])

prop("C06", "Vector maximum and minimum are the true extrema",
     """For every slice without NaNs the vector maximum (minimum) is an element of the slice that no element exceeds
     (undercuts), wherever that element is, and is -Inf (+Inf) for an empty slice.""",
     ["inputs", "configurations"],
     """All lengths, positions of the extremum, signs, infinities and alignments, in every CPU mode.""",
     """The tests place the extremum at a few positions in fixed buffers; a dropped SIMD lane or tail shows only when the
     extremum sits there.""",
     ["dsp/math32.go", "dsp/math32_amd64.s"],
     [("lane-wise reduction and tail", "dsp/math32_amd64.s")],
     ["return values of VMaxF32 and VMinF32"])

prop("C07", "Fast floating-point arctangents stay within their error bounds",
     """For all finite points with ordinary magnitudes the fast arctangents return the angle of the point in the right quadrant
     within their stated error (about 0.01 rad for the first, 0.005 rad for the second), and the complex phase functions agree with the
     exact or the fast arctangent of the imaginary and real parts. Points on the axes give the axis angle and the origin gives 0.""",
     ["inputs"],
     """All (y, x) pairs: quadrants, axes, diagonals, tiny and huge ratios.""",
     """The tests sample a coarse grid of angles of ordinary magnitude.""",
     ["dsp/math32.go"],
     [("polynomial approximations per octant", "dsp/math32.go")],
     ["return values of FastAtan2, FastAtan2_2, FastPhase32, Phase32"])

prop("C08", "Fixed-point arctangents stay within their error bounds",
     """With pi represented as 16384, the table-driven arctangent is within 0.005 rad and the fast fixed-point arctangent within 0.08 rad
     of the true angle modulo 2*pi for all integer coordinates that do not overflow their arithmetic, and never leave [-pi, pi]. Both give 0 for the
     origin.""",
     ["inputs"],
     """All integer (y, x): quadrants, axes, diagonals, tiny and huge ratios.""",
     """The tests sample angles on one circle.""",
     ["dsp/mathfixed.go"],
     [("arctangent table", "dsp/mathfixed.go"), ("octant formula", "dsp/mathfixed.go")],
     ["return values of Atan2LUT and FastAtan2Fixed"])

prop("C09", "FM demodulation yields the phase advance between consecutive samples",
     """The FM demodulator's n-th output is the angle by which sample n leads sample n-1 (within 0.011 rad, in [-pi, pi]; 0 where either is zero and for the very first sample), with the last
     sample of one call being the predecessor of the first sample of the next; it reports the number of samples processed and leaves the input
     unmodified. The polar discriminators return arg(a*conj(b)) with their respective accuracy.""",
     ["inputs", "histories"],
     """All sample sequences (including modulated signals, silence and phase jumps) and all divisions into calls.""",
     """The test demodulates one fixed sequence.""",
     ["dsp/demod.go"],
     [("previous sample kept between calls", "dsp/demod.go")],
     ["FMDemodFilter.Demodulate output and return value", "PolarDiscriminator, PolarDiscriminator32"],
     [{"name": "previous sample", "meaning": "predecessor of the next call's first sample", "where": "dsp/demod.go"}])

prop("C10", "Stream processors give the same output however the stream is cut into blocks",
     """For every stateful stream processor (IIR filters, biquads, DC blockers, decimators, FM demodulator, Goertzel
     accumulators) the concatenated output over any division of a stream into calls, including empty and one-sample calls and the sample-at-a-time
     variants, equals the output of a single call on the whole stream.""",
     ["histories", "inputs"],
     """All streams and all divisions of each into blocks.""",
     """The tests make one or two calls per filter; state carried across block boundaries is never varied.""",
     ["dsp/filter.go", "dsp/biquad.go", "dsp/downsample.go", "dsp/demod.go", "dsp/goertzel.go"],
     [("state carried in the filter structs", "dsp/filter.go, dsp/biquad.go, dsp/downsample.go, dsp/demod.go, dsp/goertzel.go")],
     ["outputs of Filter/FilterF32/FilterOne/Demodulate/Feed"],
     [{"name": "filter history", "meaning": "past inputs/outputs, partial sums and phase", "where": "filter structs"}])

prop("C11", "IIR filters implement the normalised difference equation",
     """An IIR filter built from coefficients b and a outputs y[n] = (sum b[k]x[n-k] - sum_{k>=1} a[k]y[n-k]) / a[0] from a zero
     initial state, for every order including 0, for real and complex signals in both precisions and also when output and input are the same slice.
     Building a filter does not change the coefficient slices, and changing them afterwards does not change the filter. Empty lists and lists of different lengths define no filter: building one panics.""",
     ["inputs", "histories"],
     """All coefficient vectors (any order, any non-zero a[0]) and all signals.""",
     """There is no test of the IIR filters at all.""",
     ["dsp/filter.go"],
     [("normalisation by a[0]", "dsp/filter.go"), ("direct form I history", "dsp/filter.go")],
     ["outputs of IIRFilter, ComplexIIRFilter, ComplexIIRFilter32"])

prop("C12", "Biquad designs realise their documented analogue responses",
     """Each biquad constructor yields the bilinear transform of its documented analogue prototype H(s) at the given frequency, Q or
     shelf slope and gain: the frequency responses agree at every frequency, and the filter is stable. Running the filter (double or single precision) applies exactly the difference
     equation of its coefficients, normalised by A0.""",
     ["inputs"],
     """All sample rates, centre frequencies below Nyquist, Q/slope and gain values, test frequencies and signals.""",
     """There is no test of the biquad filters at all.""",
     ["dsp/biquad.go"],
     [("cookbook coefficient formulas", "dsp/biquad.go"), ("direct form I", "dsp/biquad.go")],
     ["exported coefficients", "outputs of Filter and FilterF32"])

prop("C13", "DC blockers remove constants and follow their recurrence",
     """The DC blockers compute w[n] = x[n] + a*w[n-1], y[n] = w[n] - w[n-1] from a zero state in both precisions and both the block and the
     single-sample form. For 0 <= a < 1 a constant input therefore decays to zero output and the first output equals the first input.""",
     ["inputs", "histories"],
     """All coefficients, signals and interleavings of block and single-sample calls.""",
     """There is no test of the DC filters.""",
     ["dsp/filter.go"],
     [("leaky integrator state", "dsp/filter.go")],
     ["outputs of DCFilter and DCFilter32"])

prop("C14", "Decimators emit the right number of samples and conserve the signal sum",
     """The complex boxcar decimator emits one sample, the sum of the group, for every complete group of D input samples; the rational one emits
     floor(n*Slow/Fast) samples for n inputs, each the sum of the inputs since the previous emission times Slow/Fast (Slow <= Fast). No
     input sample is lost, duplicated or reordered across any sequence of calls, and none influences an output other than that of its group.""",
     ["inputs", "histories"],
     """All factors and ratios with Slow <= Fast, all streams and divisions into calls.""",
     """The tests use single fixed calls with one factor.""",
     ["dsp/downsample.go"],
     [("running sum and phase counter", "dsp/downsample.go")],
     ["returned slices of LowPassDownsampleComplexFilter and LowPassDownsampleRationalFilter"])

prop("C15", "Goertzel filters compute the DFT bin nearest to each target frequency",
     """After feeding exactly one block following construction or Reset, the complex result for every target frequency is the DFT of the block at the bin nearest that
     frequency and the magnitude is its squared modulus, for real and complex input and both precisions; for partial blocks the magnitude is still the squared modulus of the
     transform of the samples fed. Reset erases all history, and the targets do not influence each other.""",
     ["inputs", "histories"],
     """All sample rates, block sizes, target frequency lists, signals, feed divisions and reset points.""",
     """One test with one tone checks one magnitude.""",
     ["dsp/goertzel.go"],
     [("second-order recurrences per frequency", "dsp/goertzel.go")],
     ["Magnitude() and Complex() of Goertzel, Goertzel32, ComplexGoertzel"])

prop("C16", "The sliding DFT equals the DFT of the most recent N samples",
     """After every sample the sliding DFT's output is bin k of the DFT of the last N samples, oldest first and zeros before the start;
     with window coefficients of length L it is the weighted sum of bins k - L/2 + i, taken modulo N. This holds in both precisions within
     accumulated rounding.""",
     ["inputs", "histories"],
     """All N, k, window coefficient lists and sample streams longer than N.""",
     """There is no test of the sliding DFT.""",
     ["dsp/sdft.go"],
     [("comb with ring buffer and resonators", "dsp/sdft.go")],
     ["return values of SDFT.Filter and SDFT32.Filter"])

prop("C17", "Window functions match their definitions at every length",
     """Each window function fills the whole slice with its defining formula, is symmetric, finite, never exceeds 1, and equals 1 at the centre of odd lengths
     (and for length 1); single and double precision agree. The frequency-domain coefficient tables are the DFT coefficients of the corresponding
     periodic windows.""",
     ["inputs"],
     """All window types, both precisions, all lengths including 0, 1 and 2.""",
     """There is no test of the window functions.""",
     ["dsp/window.go"],
     [("cosine sums", "dsp/window.go"), ("coefficient tables", "dsp/window.go")],
     ["output slices", "exported coefficient tables"])

prop("C18", "Interpolators are exact on the grid and on polynomials, and total in position",
     """Linear and Hermite interpolation return the sample at integer positions, reproduce affine (Hermite: quadratic) signals at interior positions, and treat samples
     outside the slice as zero (linear interpolation is zero outside [0, length)); the optimal interpolators realise their published 4- and 6-point kernels at every position. All are linear in the samples,
     shift-invariant, depend only on the neighbouring points, never panic for finite positions, and agree between precisions.""",
     ["inputs"],
     """All sample slices (including empty) and all finite positions, including negative ones, the edges and beyond the end.""",
     """There is no test of the interpolators.""",
     ["dsp/interpolate.go"],
     [("index selection and polynomial evaluation", "dsp/interpolate.go")],
     ["return values of the eight interpolation functions"])

prop("C19", "DTMF detection reports the strongest row and column of the current block",
     """For every block the detector returns the key whose row and column bins are strongest in the windowed block and the smaller of the two squared
     magnitudes, independent of what was fed before, of samples beyond the block size, and without modifying the caller's samples. Hence every keypad tone pair
     of ITU-T Q.23 (within 1 % of its frequencies), at any phase, level, moderate twist and common sample rate, is identified as its key with the listed standard frequencies.""",
     ["inputs", "histories"],
     """All blocks (tone pairs with noise, arbitrary signals), short and long blocks, custom tone tables, window functions, and previous blocks.""",
     """There is no test of the DTMF detector.""",
     ["dsp/dtmf/dtmf.go", "dsp/goertzel.go", "dsp/window.go"],
     [("window, reset, feed, argmax", "dsp/dtmf/dtmf.go")],
     ["DTMF.Feed return values", "caller's sample slice"])

prop("C20", "AX.25 deframing delivers exactly the valid frames of any bit stream",
     """Over any bit stream in which no five ones stand unstuffed directly before a flag, the decoder returns a frame at the last bit of a closing flag exactly when the bits since the previous flag, with stuffed zeros removed and containing no
     abort, form a whole number of octets, at least the protocol minimum (17, or 10 with a FlexNet-compressed header) and at most 512, with a valid frame check sequence. Back-to-back flags,
     shared flags and shared flag zeros, noise, aborts and oversized frames never lose, duplicate or invent a frame.""",
     ["inputs", "histories"],
     """All bit streams: valid frames with every payload, broken frames, random noise, aborts, flag patterns, oversize runs.""",
     """There is no test of the AX.25 decoder.""",
     ["dsp/ax25/hdlc.go", "dsp/ax25/crc.go"],
     [("bit-serial flag/abort/stuffing detection", "dsp/ax25/hdlc.go"), ("CRC table", "dsp/ax25/crc.go")],
     ["frames returned by Feed and the bit at which they are returned"],
     [{"name": "receive shift register and buffer", "meaning": "bits and octets since the last flag", "where": "dsp/ax25/hdlc.go"}])

prop("C21", "AX.25 frame fields are decoded as encoded",
     """For every well-formed frame the decoded destination, source and repeater callsigns and SSIDs (in order), protocol version and command/response
     indication, frame type, sequence numbers, poll/final bit, supervisory or unnumbered type, protocol identifier and information field equal those encoded, whatever the
     values of reserved and has-been-repeated bits. FlexNet-compressed headers yield the encoded destination and command bit, and each decoded type prints its protocol name, or its two hexadecimal digits if it has none; addresses print as
     callsign and SSID.""",
     ["inputs"],
     """All address lists (0 to 8 repeaters), SSIDs, control bytes, PIDs and payloads.""",
     """There is no test of the AX.25 decoder.""",
     ["dsp/ax25/hdlc.go", "dsp/ax25/constants.go"],
     [("address and control field parsing", "dsp/ax25/hdlc.go"), ("name tables", "dsp/ax25/constants.go")],
     ["fields of returned frames and their String methods"])

prop("C22", "AX.25 decoding is history-independent and returned frames are immutable",
     """Whatever bits were fed before, from a flag onward the decoder behaves like a fresh decoder given that flag. A returned frame never changes afterwards, and
     decoders do not influence each other.""",
     ["histories", "inputs"],
     """All prior bit histories and all later feeds.""",
     """There is no test of the AX.25 decoder; aliasing and stale state show only over multi-frame histories.""",
     ["dsp/ax25/hdlc.go"],
     [("reset at flags", "dsp/ax25/hdlc.go"), ("copy of the information field", "dsp/ax25/hdlc.go")],
     ["frames returned by Feed, compared again later"])

prop("C23", "BorIP packet reader delivers every sample of every packet once, in order",
     """For any sequence of datagrams and any sequence of read sizes, the samples returned are exactly the complete little-endian 16-bit I/Q pairs of the datagrams in order, none repeated,
     lost or mixed with stale data, at most as many as requested per read. In header mode the reported header is that of the datagram being read and datagrams too short for a header are reported as an error and contribute
     nothing; errors of the connection are passed on.""",
     ["inputs", "histories", "fault_sequences"],
     """All datagram sizes (empty, truncated, up to the maximum), header modes, read sizes and connection errors.""",
     """There is no test of the packet reader.""",
     ["borip/packet.go"],
     [("carry-over of unread samples", "borip/packet.go"), ("header parsing", "borip/packet.go")],
     ["ReadSamples results and Header()"])

prop("C24", "BorIP client calls map one-to-one onto the protocol",
     """Every client call with arguments free of line breaks sends exactly one well-formed command line whose numeric argument reads back as the caller's exact value, and returns the values, or the error, of the server's reply to that very
     command, over any sequence of calls. Device and running state follow the successful calls, and Close stops a running stream, releases a selected device and
     closes the connection.""",
     ["histories", "inputs"],
     """All call sequences with all arguments against a model server giving success and failure replies.""",
     """There is no test of the client.""",
     ["borip/client.go"],
     [("command/response exchange", "borip/client.go"), ("reply parsing", "borip/client.go")],
     ["lines received by the server", "return values"])

prop("C25", "BorIP client survives any server behaviour",
     """For any bytes a server sends and any point at which it closes the connection, every client call returns without panicking; setters report success only
     if the reply's status word is OK, numeric queries and device selections only with the values of the reply, and a connection lost before the reply is complete is reported as an error. A failed dial leaves no connection open.""",
     ["inputs", "fault_sequences"],
     """All reply lines (grammar mutations and raw bytes) and all connection cut points.""",
     """There is no test of the client.""",
     ["borip/client.go"],
     [("reply validation", "borip/client.go")],
     ["panics, errors and results of each call"])

prop("C26", "Rotate-90 mixers shift the spectrum by a quarter of the sample rate",
     """The rotate-90 filters multiply sample n of each call by j^n exactly, in place, for complex and interleaved integer samples (lengths that are multiples of four samples), and return the same
     samples; applying a filter four times restores the input.""",
     ["inputs", "configurations"],
     """All buffers with a multiple of four samples.""",
     """The tests use single fixed buffers.""",
     ["dsp/util.go"],
     [("four-sample rotation pattern", "dsp/util.go")],
     ["returned slices of Rotate90Filter and I32Rotate90Filter"])

prop("C27", "Instances are independent and arguments are not modified",
     """Any interleaving of calls on several filters, detectors or decoders, also built from the same argument slices, gives each the results it would give alone, including when they run in parallel goroutines. Constructors and
     processing calls with separate output leave their argument slices unmodified and later changes to constructor arguments have no effect.""",
     ["histories", "schedules", "inputs"],
     """All interleavings of operations on two or more instances of each stateful type.""",
     """The tests never use two instances, nor look at argument slices afterwards.""",
     ["dsp/filter.go", "dsp/biquad.go", "dsp/sdft.go", "dsp/goertzel.go", "dsp/demod.go", "dsp/downsample.go", "dsp/dtmf/dtmf.go", "dsp/ax25/hdlc.go"],
     [("per-instance state", "all stateful types")],
     ["outputs of interleaved instances", "argument slices"])

prop("C28", "BorIP server follows the protocol over any command history",
     """For any sequence of commands from any number of successive connections the server answers every command with one well-formed reply consistent with its state (selected device, destination,
     streaming), applies frequency, rate and gain settings to the device, and never crashes or leaks the device or sockets: after STOP, release or disconnect it can be selected and started again. While streaming, every device buffer is sent to the destination
     as packets carrying sequence numbers from 0 (modulo 65536), a stream-start flag on the first only, and the samples expanded to 16 bits.""",
     ["histories", "inputs", "fault_sequences"],
     """All command histories including repeated GO/STOP, disconnects while streaming and malformed arguments, against a simulated receiver.""",
     """The server has no tests and is not built by the test suite.""",
     ["boripserver/main.go", "boripserver/devices.go"],
     [("command dispatch", "boripserver/main.go"), ("device ownership", "boripserver/devices.go"), ("streaming callback", "boripserver/main.go")],
     ["reply lines", "UDP packets", "calls on the simulated receiver"],
     [{"name": "streaming state", "meaning": "whether a stream runs on a connection", "where": "boripserver/main.go"}])

prop("C29", "AX.25 corrupted frames are never delivered",
     """A frame whose octets are changed by any error burst of at most 16 bits, any odd number of flipped bits or any two flipped bits before transmission is never delivered, while the same
     frame uncorrupted is.""",
     ["inputs", "fault_sequences"],
     """All frames up to the maximum size and all such error patterns.""",
     """There is no test of the checksum.""",
     ["dsp/ax25/crc.go", "dsp/ax25/hdlc.go"],
     [("CRC-CCITT check over the whole frame", "dsp/ax25/crc.go")],
     ["frames returned by Feed"])

prop("C30", "The DTMF command-line decoder prints the dialled keys",
     """Fed 16-bit little-endian 8 kHz audio of key tones of at least 120 ms separated by at least 120 ms of silence, on standard input or from a file, the DTMF decoder program
     prints exactly the dialled key sequence and a newline.""",
     ["inputs"],
     """All key sequences, levels, phases, tone and pause lengths.""",
     """The example program is only compiled, never run.""",
     ["examples/dtmf_file.go", "dsp/dtmf/dtmf.go"],
     [("overlapping blocks and key debouncing", "examples/dtmf_file.go")],
     ["standard output of the program"])

prop("C31", "The repository's BorIP client and server work together",
     """A borip.Client connected to the boripserver program sees the receiver as it is: device information, frequency, rate, gain, antenna and destination are reported as the receiver has them and as they were set,
     and calls without a device fail. Between Go and Stop every sample the receiver delivers comes out of a PacketReader at the destination, in order, with packet indices counting from 0 for each stream and the stream-start flag
     on the first packet only; release and Close leave the receiver free for the next client.""",
     ["histories", "inputs"],
     """All call sequences of one client at a time over successive connections, against a simulated receiver.""",
     """The tests exercise neither side against the other; each side's replies are only assumed to have the form the other reads.""",
     ["boripserver/main.go", "borip/client.go", "borip/packet.go"],
     [("reply formats and parsers", "boripserver/main.go"), ("client calls", "borip/client.go"), ("packet reader", "borip/packet.go")],
     ["results of client calls", "samples and headers read", "calls on the simulated receiver"])

prop("C32", "The ARM and ARM64 code meets the same contracts",
     """On 32-bit ARM (with NEON, with scalar VFP and with VFP vectors) and on ARM64 the sample conversions, vector arithmetic, extrema, fast arctangents, FM demodulation, decimators and rotate-90 mixers
     give the values they are defined to give on every architecture, for all lengths and alignments, return to their caller as the calling convention demands, access no memory outside their operands
     and leave inputs and unprocessed outputs alone.""",
     ["inputs", "histories"],
     """All lengths, alignments, values, scales and feature combinations, and all call sequences of the filters.""",
     """The tests run on the build machine's architecture only; the ARM assembly, which exists for real-time use on small boards, is never executed by them.""",
     ["dsp/conversion_arm.s", "dsp/math32_arm.s", "dsp/demod_arm.s", "dsp/downsample_arm.s", "dsp/util_arm.s", "dsp/conversion_arm64.s", "dsp/math32_arm64.s", "dsp/conversion.go", "dsp/math32.go"],
     [("NEON and VFP loops and their tails", "dsp/conversion_arm.s"), ("extrema and arctangents", "dsp/math32_arm.s"), ("filters keeping state in Go structures", "dsp/downsample_arm.s"), ("ARM64 vector loops", "dsp/math32_arm64.s")],
     ["output slices and results", "memory accesses", "registers on return"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
