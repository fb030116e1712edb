"""For each claimed property: the deciding method and what it gives and trusts (for MANIFEST.json)."""

_T = "property-based testing (rapid): "
_G = "Random exploration with shrinking, no proof. "
_CPU = _G + "Run with the CPU features of production, SSE2, SSE4.1, AVX and as a 386 build; the ARM code is the subject of C32. "
_NUM = _G + "Run as amd64 and 386 builds. "

TECHNIQUE = {
    "C01": _T + "exact reference model per conversion, over lengths, alignments, values, scales and CPU modes",
    "C02": _T + "guard pages and canaries around every operand as the oracle",
    "C03": _T + "metamorphic and differential relations between CPU modes, alignments and splits; cross-architecture link",
    "C04": _T + "round trips and differential relations between variants",
    "C05": _T + "exact element-wise reference model, aliasing included",
    "C06": _T + "invariant (membership and bound) over generated slices",
    "C07": _T + "error bound against math.Atan2 over generated points",
    "C08": _T + "error bound against math.Atan2 over generated integer points",
    "C09": _T + "reference phase differences over streams divided into calls",
    "C10": _T + "metamorphic relation: any division into calls equals one call",
    "C11": _T + "reference difference equation in double precision with an error analysis",
    "C12": _T + "frequency responses against the analogue prototypes and a reference difference equation",
    "C13": _T + "reference recurrence and decay invariant",
    "C14": _T + "reference accumulator and conservation invariant over call sequences",
    "C15": _T + "stateful histories of feeds, resets and queries against a direct DFT",
    "C16": _T + "direct DFT of the last N samples as reference",
    "C17": _T + "defining formulas and invariants over all lengths; DFT of the windows against the tables",
    "C18": _T + "reference kernels, polynomial reproduction and shift relation",
    "C19": _T + "reference bins over sequences of blocks; synthesised tone pairs",
    "C20": _T + "generated bit streams with damage and noise against an off-line reference deframer",
    "C21": _T + "round trip from generated frames through an independent encoder",
    "C22": _T + "metamorphic relation over histories; frames re-read after further input; parallel decoders under the race detector",
    "C23": _T + "scripted datagrams, faults and read sizes against a queue model",
    "C24": _T + "model-based call sequences against a scripted server over loopback TCP",
    "C25": _T + "fault injection: damaged and truncated replies, closed and reset connections",
    "C26": _T + "exact rotation model, four-fold application as identity",
    "C27": _T + "interleavings and parallel runs of several instances against each alone; race detector",
    "C28": _T + "stateful command histories against a simulated receiver and a model of the server",
    "C29": _T + "error patterns injected into generated frames",
    "C31": _T + "stateful call histories through the repository's client and server against a simulated receiver",
    "C32": _T + "reference models over the linked ARM and ARM64 machine code, run in an emulator whose memory holds only the operands",
    "C30": _T + "synthesised audio piped to the program, its output compared with the keys",
}
NOTE = {
    "C01": _CPU + "Trusts the reference model, which follows the documented formats.",
    "C02": _CPU + "Overruns are seen when they leave the page or hit the canaries; reads of less than the slack behind the slice's end are excluded by placing the end at the page boundary.",
    "C03": _CPU + "Linking shows that no architecture lacks a routine, not that the ARM assembly is right.",
    "C04": _CPU, "C05": _CPU + "Products and sums must be correctly rounded; moduli within 2 ulp.", "C06": _CPU,
    "C07": _NUM + "Bounds from the property's text.", "C08": _NUM + "Coordinates are limited so that 32- and 64-bit integers do not overflow.",
    "C09": _NUM, "C10": _NUM + "Calls may differ by rounding (1e-11 relative in double, 2e-6 in single precision).",
    "C11": _NUM + "Tolerance from a running error bound.", "C12": _NUM, "C13": _NUM, "C14": _NUM + "Sums compared within rounding of single precision.",
    "C15": _NUM + "Tolerance grows with the block length; frequencies halfway between bins may take either.", "C16": _NUM + "Tolerance grows linearly with the number of samples.",
    "C17": _NUM, "C18": _NUM, "C19": _NUM + "Bins closer than rounding may rank either way.",
    "C20": _NUM + "Headers that are not well-formed only need to be delivered.", "C21": _NUM, "C22": _NUM + "Also with the race detector.",
    "C23": _G + "The connection is a stand-in that delivers a script.", "C24": _G + "Loopback TCP; the server model is ours.", "C25": _G + "The server always ends the connection, so that a hang is the client's fault.",
    "C26": _CPU, "C27": _NUM + "Also with the race detector; schedules are drawn, not enumerated.",
    "C28": _G + "The rtl-sdr library is replaced by a simulated receiver, whose asynchronous reads call back from a goroutine of their own.",
    "C29": _NUM, "C31": _G + "The rtl-sdr library is replaced by a simulated receiver.",
    "C32": _G + "Trusts the emulator, written from the architecture manuals for the instructions the compiler and the assembly use; single NEON results may take subnormal numbers for zero. Real processors were not available.",
    "C30": _G + "Runs the program itself.",
}
