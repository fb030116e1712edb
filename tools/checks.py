"""The table of checks: which test, in which configurations, how many cases."""

CONFIGS = {
    # CPU features as in production: nothing in the repository initialises them
    "baseline": {"goarch": "amd64", "cpu": None},
    "sse2": {"goarch": "amd64", "cpu": "cpu.avx=off,cpu.sse41=off"},
    "sse4": {"goarch": "amd64", "cpu": "cpu.avx=off"},
    "avx": {"goarch": "amd64", "cpu": ""},
    "386": {"goarch": "386", "cpu": None},
    "race": {"goarch": "amd64", "cpu": None, "race": True, "scale": 0.15},
}
ALL = ["baseline", "sse2", "sse4", "avx", "386"]
BASE = ["baseline"]
BOTH = ["baseline", "386"]

FILTERS = "non-trivial: more than two samples and an input that is not all zero"

BORIPSERVER = {
    "VERIF_BORIPSERVER": {"pkg": "github.com/samuel/go-dsp/boripserver"},
    "VERIF_BORIPSERVER_RACE": {"pkg": "github.com/samuel/go-dsp/boripserver", "race": True},
}

CHECKS = {
    "C01": dict(configs=ALL, shards=2, quick=10000, thorough=60000,
                rule="one buffer pair per case (lengths around SIMD block sizes, random alignment, contents and scale); non-trivial: at least two samples converted, not all equal"),
    "C02": dict(configs=ALL, shards=2, quick=4000, thorough=60000,
                rule="one call per case on operands lying against inaccessible pages, canaries around; non-trivial: at least one element processed or operands of unequal length"),
    "C03": dict(configs=ALL, shards=2, quick=3000, thorough=25000, same_seed=True, digests=True,
                link=["amd64", "386", "arm", "arm64", "windows/amd64", "windows/386", "darwin/amd64", "darwin/arm64"],
                rule="one buffer per case processed whole, in pieces at other alignments, and rotated; the same cases run in every configuration and their output digests are compared; non-trivial: more than one sample and more than one piece"),
    "C04": dict(configs=ALL, shards=2, quick=20000, thorough=160000,
                rule="one buffer per case sent through a round trip or through two variants of a conversion; non-trivial: more than one sample, not all equal"),
    "C05": dict(configs=ALL, shards=2, quick=12000, thorough=160000,
                rule="one operand set per case (unequal lengths, shared slices, special values); non-trivial: at least two elements, not all equal"),
    "C06": dict(configs=ALL, shards=2, quick=40000, thorough=400000,
                rule="one slice per case with the extremum at a drawn position; non-trivial: at least two distinct values"),
    "C07": dict(configs=BOTH, shards=2, quick=40000, thorough=800000,
                rule="one point per case (all quadrants, axes, ratios around the switch-over, extreme exponents); non-trivial: both coordinates non-zero"),
    "C08": dict(configs=BOTH, shards=2, quick=40000, thorough=800000,
                rule="one integer point per case (all quadrants, axes, diagonals, small and maximal coordinates); non-trivial: both coordinates non-zero"),
    "C09": dict(configs=BOTH, shards=2, quick=30000, thorough=600000,
                rule="one sample stream per case divided into calls; non-trivial: more than one non-zero sample"),
    "C10": dict(configs=BOTH, shards=2, quick=15000, thorough=300000,
                rule="one processor, stream and division into calls per case; non-trivial: more than two samples in at least two non-empty calls"),
    "C11": dict(configs=BOTH, shards=2, quick=15000, thorough=300000,
                rule="one filter and signal per case against the difference equation in double precision; " + FILTERS),
    "C12": dict(configs=BOTH, shards=2, quick=12000, thorough=240000,
                rule="one design (type, frequency, Q or slope, gain) per case compared with its analogue prototype at several frequencies, then run on a signal; every case is non-trivial unless its signal is zero"),
    "C13": dict(configs=BOTH, shards=2, quick=15000, thorough=300000,
                rule="one pole and signal per case; " + FILTERS),
    "C14": dict(configs=BOTH, shards=2, quick=12000, thorough=400000,
                rule="one decimation ratio and stream per case divided into calls; non-trivial: at least one output and a non-zero input"),
    "C15": dict(configs=BOTH, shards=2, quick=25000, thorough=500000,
                rule="one set of targets and a history of feeds, resets and queries per case against a direct DFT; non-trivial: targets, a query and a non-zero signal"),
    "C16": dict(configs=BOTH, shards=2, quick=25000, thorough=500000,
                rule="one bin, length, window and signal per case against a direct DFT of the last N samples; non-trivial: more than one sample, not all zero"),
    "C17": dict(configs=BOTH, shards=2, quick=6000, thorough=200000,
                rule="one window and length per case; non-trivial: length above 2 (tables: every case)"),
    "C18": dict(configs=BOTH, shards=2, quick=40000, thorough=800000,
                rule="one signal and six positions per case against the kernel weights; non-trivial: a position inside a non-zero signal"),
    "C19": dict(configs=BOTH, shards=2, quick=9000, thorough=300000,
                rule="a sequence of blocks fed to one detector per case, against directly computed bins, or tone pairs against their key; non-trivial: a non-zero block"),
    "C20": dict(configs=BOTH, shards=2, quick=60000, thorough=1200000,
                rule="one bit stream of frames, damaged frames, noise and aborts per case against an off-line deframer; non-trivial: more than 16 bits"),
    "C21": dict(configs=BOTH, shards=2, quick=40000, thorough=800000,
                rule="up to four encoded frames per case; every case is non-trivial"),
    "C22": dict(configs=BOTH + ["race"], shards=2, quick=6000, thorough=48000,
                rule="a history followed by a flag and a stream, or two interleaved decoders, or parallel decoders per case; non-trivial: history and at least one frame after the flag (all cases with several decoders)"),
    "C23": dict(configs=BOTH, shards=2, quick=5000, thorough=40000,
                rule="a script of datagrams, errors and read sizes per case; non-trivial: more than one sample"),
    "C24": dict(configs=BOTH, shards=2, quick=12000, thorough=96000, procs=4,
                rule="a sequence of up to 14 calls against a scripted server on the loopback interface per case; non-trivial: at least one call"),
    "C25": dict(configs=BOTH, shards=2, quick=15000, thorough=120000, procs=4,
                rule="a sequence of calls against a server sending damaged or arbitrary replies and closing at a drawn point per case; non-trivial: at least one call, or a failed dial"),
    "C26": dict(configs=ALL, shards=2, quick=40000, thorough=800000,
                rule="one buffer (or sequence of buffers) per case; non-trivial: at least one group of four samples that are not all equal"),
    "C27": dict(configs=BOTH + ["race"], shards=2, quick=5000, thorough=40000,
                rule="two to six instances per case, some from the same arguments, in a drawn interleaving or in parallel goroutines; non-trivial: more calls than instances (parallel: every case)"),
    "C28": dict(configs=["baseline", "race"], shards=1, thorough_shards=2, quick=2500, thorough=20000, shrink="40s", programs=BORIPSERVER,
                rule="one history of up to 30 commands, buffers, failures and disconnects of two clients per case, against the server process with simulated receivers; non-trivial: at least one stream"),
    "C29": dict(configs=BOTH, shards=2, quick=20000, thorough=400000,
                rule="one frame and eight error patterns per case; every case is non-trivial"),
    "C30": dict(configs=BASE, shards=4, quick=1000, thorough=8000, shrink="15s",
                programs={"VERIF_DTMF_FILE": {"pkg": "examples/dtmf_file.go", "cwd": "$REPO"}},
                rule="one synthesised call of up to 8 keys per case, given to the program as a file or through a pipe; non-trivial: at least one key"),
    "C31": dict(configs=["baseline", "race"], shards=1, thorough_shards=2, quick=2000, thorough=16000, shrink="40s", programs=BORIPSERVER,
                rule="up to three connections of the repository's client with up to 14 calls each per case, to the server process with simulated receivers; non-trivial: a stream, or more than six calls of the receiver"),
    "C32": dict(configs=BASE, shards=8, quick=1500, thorough=12000,
                programs={"VERIF_ARM": {"pkg": "./armprog", "goarch": "arm", "optional": True}, "VERIF_ARM64": {"pkg": "./armprog", "goarch": "arm64", "optional": True}},
                rule="one call (or up to four successive calls of a filter) per case of the machine code linked for ARM or ARM64, executed instruction by instruction in a memory that holds only the operands; non-trivial: more than one sample, not all equal"),
}

NOT_APPLICABLE = {
}
