From 3e50c950c7154f2b2e383d3f28c5c10b1f2b5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 01/36] fix: VAbsC64 and the portable Ui8tof32 must accept
 empty slices

---
 dsp/conversion.go | 3 +++
 dsp/math32.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 1943d4a..0d90b87 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -43,6 +43,9 @@ func ui8tof32(input []byte, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
+	if n == 0 {
+		return
+	}
 	_ = output[n-1] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(int(v) - 128)
diff --git a/dsp/math32.go b/dsp/math32.go
index 8e69271..5f8b973 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -83,6 +83,9 @@ func vAbsC64(input []complex64, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
+	if n == 0 {
+		return
+	}
 	_ = output[n-1] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(math.Sqrt(float64(real(v)*real(v) + imag(v)*imag(v))))
-- 
2.43.0


From 69087f6f35cfc7cca24c441437ab7f8139814bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 02/36] fix: VScaleC64 must accept empty slices

---
 dsp/math32.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/math32.go b/dsp/math32.go
index 5f8b973..275007f 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,6 +61,9 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
+	if len(input) == 0 || len(output) == 0 {
+		return
+	}
 	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
 	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
 	VScaleF32(in, out, scale)
-- 
2.43.0


From 2c2199b001a513999e25103d742972c03ab09ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 03/36] fix: VScaleF32 on amd64 must scale the whole tail after
 the SIMD blocks

---
 dsp/math32_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6d5aff0..6ec4c2c 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -314,7 +314,7 @@ vscalef32_scalar_loop:
 	INCQ  AX
 	ADDQ  $4, SI
 	ADDQ  $4, DI
-	CMPQ  AX, CX
+	CMPQ  AX, DX
 	JLT   vscalef32_scalar_loop
 
 vscalef32_done:
-- 
2.43.0


From 7da2646a702009fcb3ee067f86f1a6ef9bcd8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 04/36] fix: FastAtan2_2 must not return NaN when y/x overflows

---
 dsp/math32.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index 275007f..95f7319 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -181,7 +181,9 @@ func fastAtan2_2(y, x float32) float32 {
 		}
 		return atan
 	}
-	atan := pi2 - z/(zz+0.28)
+	// use the reciprocal since y/x and its square may overflow
+	w := x / y
+	atan := pi2 - w/(1.0+0.28*w*w)
 	if y < 0.0 {
 		return atan - math.Pi
 	}
-- 
2.43.0


From abb7f0e511420348d47ab70704ff82e8d14c6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 05/36] fix: Linear and LinearF32 must not index out of range
 for positions outside the samples

---
 dsp/interpolate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 86da1a7..fc29c03 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -4,6 +4,9 @@ import "math"
 
 // Linear interpolates using linear interpolation.
 func Linear(samples []float64, x float64) float64 {
+	if !(x >= 0 && x < float64(len(samples))) {
+		return 0
+	}
 	var samp float64
 	low := math.Floor(x)
 	lowInt := int(low)
@@ -22,7 +25,7 @@ func Linear(samples []float64, x float64) float64 {
 
 // LinearF32 interpolates using linear interpolation.
 func LinearF32(samples []float32, x float32) float32 {
-	if x < 0 || x > math.MaxFloat32 {
+	if !(x >= 0 && x < float32(len(samples))) {
 		return 0
 	}
 	var samp float32
-- 
2.43.0


From 199213fb94df599fa24343c16e684df8bb2eaa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 06/36] fix: cubic and optimal interpolators must round
 negative positions down

---
 dsp/interpolate.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index fc29c03..954275f 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -46,7 +46,7 @@ func LinearF32(samples []float32, x float32) float32 {
 
 // Hermite4p3o interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3o(samples []float64, x float64) float64 {
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [4]float64
 	for i := -1; i <= 2; i++ {
@@ -65,7 +65,7 @@ func Hermite4p3o(samples []float64, x float64) float64 {
 
 // Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3oF32(samples []float32, x float32) float32 {
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [4]float32
 	for i := -1; i <= 2; i++ {
@@ -86,7 +86,7 @@ func Hermite4p3oF32(samples []float32, x float32) float32 {
 func Optimal2x4p4o(samples []float64, x float64) float64 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -1; i <= 2; i++ {
@@ -113,7 +113,7 @@ func Optimal2x4p4o(samples []float64, x float64) float64 {
 func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -1; i <= 2; i++ {
@@ -139,7 +139,7 @@ func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 // Optimal2x6p5o interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5o(samples []float64, x float64) float64 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -2; i <= 3; i++ {
@@ -168,7 +168,7 @@ func Optimal2x6p5o(samples []float64, x float64) float64 {
 // Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5oF32(samples []float32, x float32) float32 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -2; i <= 3; i++ {
-- 
2.43.0


From a3200344787267881542aebec1e56308990a49c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 07/36] fix: single-point cosine windows must be 1 and not NaN

---
 dsp/window.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dsp/window.go b/dsp/window.go
index ead99f4..fa5291c 100644
--- a/dsp/window.go
+++ b/dsp/window.go
@@ -36,12 +36,20 @@ func HammingWindowF32(output []float32) {
 }
 
 func HanningWindow(output []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = 0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1)))
 	}
 }
 
 func HanningWindowF32(output []float32) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = float32(0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1))))
 	}
@@ -69,6 +77,10 @@ func window(output []float64, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
@@ -90,6 +102,10 @@ func windowF32(output []float32, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
-- 
2.43.0


From 768ad4b12262432a3a23fb0ec85cee30e6f02bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 08/36] fix: IIR filter constructors must not modify or keep
 the caller's coefficients

---
 dsp/filter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsp/filter.go b/dsp/filter.go
index 68f0bac..e5a414e 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -19,6 +19,9 @@ func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// work on copies to leave the caller's coefficients untouched
+	bCoef = append([]float64(nil), bCoef...)
+	aCoef = append([]float64(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -37,6 +40,9 @@ func NewComplexIIRFilter32(bCoef, aCoef []float32) *ComplexIIRFilter32 {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// work on copies to leave the caller's coefficients untouched
+	bCoef = append([]float32(nil), bCoef...)
+	aCoef = append([]float32(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -55,6 +61,9 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	// work on copies to leave the caller's coefficients untouched
+	bCoef = append([]float64(nil), bCoef...)
+	aCoef = append([]float64(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
-- 
2.43.0


From 6498eca17389f4228810f2f76125130f5994c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 09/36] fix: IIR filters of order zero must not panic

---
 dsp/filter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index e5a414e..118802d 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -88,8 +88,10 @@ func (f *IIRFilter) Filter(input, output []float64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -104,8 +106,10 @@ func (f *ComplexIIRFilter32) Filter(input, output []complex64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -120,8 +124,10 @@ func (f *ComplexIIRFilter) Filter(input, output []complex128) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
-- 
2.43.0


From 0b549d907077a34ab17501d919b97c81e54da259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 10/36] fix: DTMF detector must not apply its window to the
 caller's samples

---
 dsp/dtmf/dtmf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsp/dtmf/dtmf.go b/dsp/dtmf/dtmf.go
index 017f2ea..011e91a 100644
--- a/dsp/dtmf/dtmf.go
+++ b/dsp/dtmf/dtmf.go
@@ -21,6 +21,7 @@ type DTMF struct {
 	nHigh     int
 	blockSize int
 	w         []float32
+	buf       []float32
 }
 
 func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func([]float32)) *DTMF {
@@ -36,6 +37,7 @@ func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func(
 		nHigh:     len(highFreq),
 		blockSize: blockSize,
 		w:         w,
+		buf:       make([]float32, blockSize),
 	}
 }
 
@@ -48,13 +50,14 @@ func (d *DTMF) Feed(samples []float32) (int, float32) {
 	if len(samples) > d.blockSize {
 		samples = samples[:d.blockSize]
 	}
+	windowed := d.buf[:len(samples)]
 	for i, s := range samples {
-		samples[i] = s * d.w[i]
+		windowed[i] = s * d.w[i]
 	}
 	d.lowFreq.Reset()
 	d.highFreq.Reset()
-	d.lowFreq.Feed(samples)
-	d.highFreq.Feed(samples)
+	d.lowFreq.Feed(windowed)
+	d.highFreq.Feed(windowed)
 	row, thresh1 := max(d.lowFreq.Magnitude())
 	col, thresh2 := max(d.highFreq.Magnitude())
 	if thresh2 < thresh1 {
-- 
2.43.0


From 56c321d279f7317fbfa111cbcd8ecbd7e08612a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 11/36] fix: FlexNet destination callsign characters must be
 masked to six bits

---
 dsp/ax25/hdlc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ffbed6d..8055211 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -80,13 +80,13 @@ func (ax *AX25) processFrame() *Frame {
 		frame.V1 = false
 		frame.Command = (buf[1] & 2) != 0
 		var dest []byte
-		if i := (buf[2] >> 2) & 0x2f; i != 0 {
+		if i := (buf[2] >> 2) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[2] << 4) | ((buf[3]>>4)&0xf)&0x3f; i != 0 {
+		if i := ((buf[2] << 4) | ((buf[3] >> 4) & 0xf)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[3] << 2) | ((buf[4]>>6)&3)&0x3f; i != 0 {
+		if i := ((buf[3] << 2) | ((buf[4] >> 6) & 3)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
 		if i := buf[4] & 0x3f; i != 0 {
-- 
2.43.0


From df28f655830f6881250b76ee783ba2981b3c4855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 12/36] fix: AX.25 frames must not share the receive buffer of
 the decoder

---
 dsp/ax25/hdlc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index 8055211..ed86dce 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -169,7 +169,8 @@ func (ax *AX25) processFrame() *Frame {
 
 	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
 		frame.PID = PID(buf[0])
-		frame.Info = buf[1:]
+		// copy since buf is reused for the following frames
+		frame.Info = append([]byte{}, buf[1:]...)
 	}
 	return &frame
 }
-- 
2.43.0


From 1f5430cbb85d8fc9a2f51e0cde8f92a21d7c4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 13/36] fix: AX.25 frames that are not a whole number of octets
 must be discarded

---
 dsp/ax25/hdlc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ed86dce..338b4ae 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -182,7 +182,9 @@ func (ax *AX25) Feed(bit int) *Frame {
 	// Watch for flag
 	if ax.bitstream&0xff == 0x7e {
 		var frame *Frame
-		if ax.inFrame && len(ax.rxBuf) > 2 {
+		// A valid frame is an integral number of octets (7 bits of the
+		// closing flag have already been shifted in)
+		if ax.inFrame && len(ax.rxBuf) > 2 && ax.rxBitI == 7 {
 			frame = ax.processFrame()
 		}
 		ax.inFrame = true
-- 
2.43.0


From 098300499d6d7f9d1d013045648e4c039063a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 14/36] fix: short BorIP packets must be dropped and not read
 as samples

---
 borip/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/packet.go b/borip/packet.go
index aed4de9..33b2f71 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -61,6 +61,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		rd.bufN = n
 		if rd.withHeaders {
 			if n < packetHeaderSize {
+				rd.bufN = 0 // drop the packet
 				return 0, ErrShortPacket
 			}
 			rd.header.Flags = rd.buf[rd.bufI]
-- 
2.43.0


From 67fa6c1a7c3158007db1e009cdfc967987f9825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 15/36] fix: BorIP packet reader must ignore a trailing
 incomplete sample

---
 borip/packet.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/borip/packet.go b/borip/packet.go
index 33b2f71..e5907b1 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -69,7 +69,8 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 			rd.header.Idx = binary.LittleEndian.Uint16(rd.buf[2:4])
 			rd.bufI += 4
 		}
-		// rd.bufN = n - (n & 7)
+		// ignore a trailing incomplete sample
+		rd.bufN -= (rd.bufN - rd.bufI) & 3
 	}
 	idx := 0
 	for rd.bufI < rd.bufN {
-- 
2.43.0


From 3a6c50791ac2c98f0b3907f4260d189efe963715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 16/36] fix: BorIP packet reader must not overrun a sample
 slice shorter than the packet

---
 borip/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/packet.go b/borip/packet.go
index e5907b1..7a1f9f6 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -73,7 +73,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		rd.bufN -= (rd.bufN - rd.bufI) & 3
 	}
 	idx := 0
-	for rd.bufI < rd.bufN {
+	for idx < len(samples) && rd.bufI < rd.bufN {
 		iReal := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI : rd.bufI+2]))
 		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI+2 : rd.bufI+4]))
 		samples[idx] = complex(float64(iReal), float64(qQmag))
-- 
2.43.0


From f6e80667d62e7cf553c1246a23b125c370cf2f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 17/36] fix: BorIP SetRate must not panic on a response without
 a rate

---
 borip/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index 3966159..4ef9a83 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -190,7 +190,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 1)
+	parts, err := parseAndCheck(res, 2)
 	if err != nil {
 		return 0.0, err
 	}
-- 
2.43.0


From aa1a531f9b714e09eefc90196948227154ed7c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 18/36] fix: BorIP client must accept a device without a serial
 number

---
 borip/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 4ef9a83..75bd911 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -39,12 +39,15 @@ type Device struct {
 func parseDeviceString(st string) (*Device, error) {
 	// Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)
 	deviceParts := strings.Split(st, "|")
-	if len(deviceParts) < 8 {
+	// the serial number is optional
+	if len(deviceParts) < 7 {
 		return nil, ErrUnexpectedResponse
 	}
 	d := &Device{
-		Name:   deviceParts[0],
-		Serial: deviceParts[7],
+		Name: deviceParts[0],
+	}
+	if len(deviceParts) > 7 {
+		d.Serial = deviceParts[7]
 	}
 	var err error
 	if d.MinGain, err = strconv.ParseFloat(deviceParts[1], 64); err != nil {
-- 
2.43.0


From 51f4365e127fa652f59219c547a9195943a4ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 19/36] fix: BorIP Dial must close the connection when the
 hello cannot be read

---
 borip/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/client.go b/borip/client.go
index 75bd911..e312e7c 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -92,6 +92,7 @@ func Dial(addr string) (*BorIP, error) {
 	}
 	line, err := bor.rd.ReadString('\n')
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	line = strings.TrimSpace(line)
-- 
2.43.0


From 9dcdc974b66a5b064df015eedd707b097a55ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 20/36] fix: add the missing portable stubs so that the package
 links on 386, arm and arm64

---
 dsp/conversion_386.s   | 3 +++
 dsp/conversion_arm.s   | 3 +++
 dsp/conversion_arm64.s | 3 +++
 dsp/math32_386.s       | 3 +++
 dsp/math32_arm.s       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/dsp/conversion_386.s b/dsp/conversion_386.s
index c3a9eb1..6bf50fc 100644
--- a/dsp/conversion_386.s
+++ b/dsp/conversion_386.s
@@ -24,3 +24,6 @@ TEXT ·I16bleToF64(SB), 7, $0
 
 TEXT ·I16bleToF32(SB), 7, $0
 	JMP ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), 7, $0
+	JMP ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index 51e627c..cc89602 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -306,3 +306,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm64.s b/dsp/conversion_arm64.s
index eba09db..4f21b00 100644
--- a/dsp/conversion_arm64.s
+++ b/dsp/conversion_arm64.s
@@ -97,3 +97,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/math32_386.s b/dsp/math32_386.s
index 1d0358b..3e5e326 100644
--- a/dsp/math32_386.s
+++ b/dsp/math32_386.s
@@ -15,3 +15,6 @@ TEXT ·VMaxF32(SB), 7, $0
 
 TEXT ·VMulC64xF32(SB), 7, $0
 	JMP ·vMulC64xF32(SB)
+
+TEXT ·VMinF32(SB), 7, $0
+	JMP ·vMinF32(SB)
diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index 0fdbb5d..b773f55 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -350,3 +350,6 @@ vmaxf32_scalar_loop:
 vmaxf32_done:
 	MOVF F4, ret+12(FP)
 	RET
+
+TEXT ·VMinF32(SB), NOSPLIT, $0
+	B ·vMinF32(SB)
-- 
2.43.0


From 92d024f9cc589e4b44676063e2202444117e563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 21/36] fix: 8-bit to float conversions on amd64 must not run
 past the slices after aligning the output

---
 dsp/conversion_amd64.s      | 2 +-
 dsp/conversion_avo_amd64.go | 2 +-
 dsp/conversion_avo_amd64.s  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index db943df..c641ac7 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -354,7 +354,7 @@ i8tof32_align:
 i8tof32_aligned:
 
 	MOVQ CX, DX
-	ANDQ $(~15), DX
+	SUBQ $15, DX
 	CMPQ AX, DX
 	JGE  i8tof32_stepper
 
diff --git a/dsp/conversion_avo_amd64.go b/dsp/conversion_avo_amd64.go
index 3e589d5..ce76e75 100644
--- a/dsp/conversion_avo_amd64.go
+++ b/dsp/conversion_avo_amd64.go
@@ -47,7 +47,7 @@ func main() {
 	Label("ui8tof32_aligned")
 	n := GP64()
 	MOVQ(inputLen, n)
-	ANDQ(U32(^uint32(15)), n)
+	SUBQ(Imm(15), n)
 	CMPQ(index, n)
 	JGE(LabelRef("ui8tof32_stepper"))
 
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 4735153..3916b72 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -44,7 +44,7 @@ ui8tof32_align:
 
 ui8tof32_aligned:
 	MOVQ   CX, SI
-	ANDQ   $0xfffffff0, SI
+	SUBQ   $0x0f, SI
 	CMPQ   BX, SI
 	JGE    ui8tof32_stepper
 	CMPB   ·useSSE4+0(SB), $0x01
-- 
2.43.0


From 0f9bffb34962c7680862b40c17e974aaf5268407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 22/36] fix: the generated stub must not redeclare Ui8tof32 on
 Windows

---
 dsp/conversion.go          | 2 +-
 dsp/conversion_avo_amd64.s | 2 +-
 dsp/stub_windows.go        | 6 ------
 3 files changed, 2 insertions(+), 8 deletions(-)
 delete mode 100644 dsp/stub_windows.go

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 0d90b87..d08ae09 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -5,7 +5,7 @@ import (
 	"math"
 )
 
-//go:generate go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go
+//go:generate go run conversion_avo_amd64.go -out conversion_avo_amd64.s
 
 // Ui8toi16 converts and scales unsigned 8-bit samples to 16-bit signed samples.
 func Ui8toi16(input []byte, output []int16)
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 3916b72..9934edb 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -1,4 +1,4 @@
-// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go. DO NOT EDIT.
+// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s. DO NOT EDIT.
 
 #include "textflag.h"
 
diff --git a/dsp/stub_windows.go b/dsp/stub_windows.go
deleted file mode 100644
index c5cc76e..0000000
--- a/dsp/stub_windows.go
+++ /dev/null
@@ -1,6 +0,0 @@
-// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go. DO NOT EDIT.
-
-package dsp
-
-// Ui8tof32 converts unsigned 8-bit samples to 32-bit float.
-func Ui8tof32(input []byte, output []float32)
-- 
2.43.0


From 8d78de000ec4b5ec55e7ba112b90e02c4574435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 23/36] fix: VScaleC64 must not panic on slices of more than
 2^25 samples

---
 dsp/math32.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index 95f7319..0ba1ca3 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -64,8 +64,8 @@ func VScaleC64(input, output []complex64, scale float32) {
 	if len(input) == 0 || len(output) == 0 {
 		return
 	}
-	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
-	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
+	in := unsafe.Slice((*float32)(unsafe.Pointer(&input[0])), len(input)*2)
+	out := unsafe.Slice((*float32)(unsafe.Pointer(&output[0])), len(output)*2)
 	VScaleF32(in, out, scale)
 }
 
-- 
2.43.0


From 406ce82ef4e0389298449ca06312e10225d58b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 24/36] fix: boripserver does not compile (frequency query)

---
 boripserver/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index c945a91..48ec637 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -105,7 +105,8 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resDevice, "no active device")
 		}
 		if len(args) == 0 {
-			if curFreq, err := cli.dev.rtlDev.GetCenterFreq(); err != nil {
+			curFreq, err := cli.dev.rtlDev.GetCenterFreq()
+			if err != nil {
 				return cli.sendResponse(cmd, "-", "failed to get frequency")
 			}
 			return cli.sendResponse(cmd, strconv.FormatUint(uint64(curFreq), 10))
-- 
2.43.0


From 8ef8f7152a97fbc3a552a259aa4ca3ced09b99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 25/36] fix: boripserver STOP must end the stream before it is
 answered, and may be repeated

---
 boripserver/main.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 48ec637..288f300 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -76,7 +76,8 @@ type client struct {
 	wr        *bufio.Writer
 	dest      *net.UDPAddr
 	dev       *device
-	closeChan chan bool
+	closeChan chan bool // closed to ask the stream to end
+	doneChan  chan bool // closed when the stream has ended
 }
 
 func (cli *client) sendResponse(cmd string, args ...string) error {
@@ -298,7 +299,16 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 }
 
 func (cli *client) isStreaming() bool {
-	return cli.closeChan != nil
+	if cli.closeChan == nil {
+		return false
+	}
+	select {
+	case <-cli.doneChan: // the device stopped by itself
+		cli.closeChan = nil
+		return false
+	default:
+	}
+	return true
 }
 
 func (cli *client) stopStreaming() {
@@ -306,6 +316,8 @@ func (cli *client) stopStreaming() {
 		return
 	}
 	close(cli.closeChan)
+	<-cli.doneChan
+	cli.closeChan = nil
 }
 
 func (cli *client) startStreaming() error {
@@ -324,7 +336,19 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 
-	cli.closeChan = make(chan bool, 1)
+	closeChan := make(chan bool)
+	doneChan := make(chan bool)
+	cli.closeChan = closeChan
+	cli.doneChan = doneChan
+	ended := false
+	end := func() bool {
+		if !ended {
+			ended = true
+			close(doneChan)
+		}
+		return true
+	}
+
 	bufOut := make([]byte, headerSize+samplesPerPacket*2*2)
 	bufOut[0] = flagStreamStart
 	bufOut[1] = 0 // notification: reserved (currently 0)
@@ -334,14 +358,12 @@ func (cli *client) startStreaming() error {
 	// cli.dev.rtlDev.ReadAsyncUsingSync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 		if buf == nil {
-			cli.closeChan = nil
-			return true
+			return end()
 		}
 
 		select {
-		case _ = <-cli.closeChan:
-			cli.closeChan = nil
-			return true
+		case <-closeChan:
+			return end()
 		default:
 		}
 
-- 
2.43.0


From dccb319511c96d0866b613dc874bc80dd45d6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 26/36] fix: boripserver must close the UDP socket of a stream
 when it ends

---
 boripserver/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boripserver/main.go b/boripserver/main.go
index 288f300..437956e 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -333,6 +333,7 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 	if err := cli.dev.rtlDev.ResetBuffer(); err != nil {
+		conn.Close()
 		return err
 	}
 
@@ -344,6 +345,7 @@ func (cli *client) startStreaming() error {
 	end := func() bool {
 		if !ended {
 			ended = true
+			conn.Close()
 			close(doneChan)
 		}
 		return true
-- 
2.43.0


From 918ae26b7063f5a35dedda986c22aa3da0c5c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 27/36] fix: boripserver must not crash on tuners with fewer
 than two gain settings

---
 boripserver/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 437956e..bfc696c 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -260,10 +260,12 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			gains, err := dev.rtlDev.GetTunerGains()
 			if err != nil {
 				log.Printf("Failed to get tuner gains: %s", err.Error())
-			} else {
+			} else if len(gains) > 0 {
 				minGain = float64(gains[0])
 				maxGain = float64(gains[len(gains)-1])
-				gainStep = float64(gains[1] - gains[0])
+				if len(gains) > 1 {
+					gainStep = float64(gains[1] - gains[0])
+				}
 			}
 			// if debug {
 			// 	log.Printf("Gains: %+v", gains)
-- 
2.43.0


From f9800867662b332f6d7c883442741f1b97fd3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 28/36] fix: boripserver must report negative gains as such

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index bfc696c..99b41aa 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -177,7 +177,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if err != nil {
 			return cli.sendResponse(cmd, resFail, "failed to get gain")
 		}
-		return cli.sendResponse(cmd, resOK, strconv.FormatUint(uint64(curGain), 10))
+		return cli.sendResponse(cmd, resOK, strconv.Itoa(curGain))
 	case cmdDest:
 		if len(args) == 0 {
 			if cli.dest == nil {
-- 
2.43.0


From 065d43faa338d9007373f588c9512b7ce63b66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 29/36] fix: boripserver must report the tuner frequency it has
 read

---
 boripserver/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 99b41aa..213255a 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -273,7 +273,6 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			_, tunerFreq, err := dev.rtlDev.GetXtalFreq()
 			if err != nil {
 				log.Printf("Failed to get tuner frequency: %s", err.Error())
-			} else {
 				tunerFreq = 0
 			}
 			// <DEVICE NAME>|<MIN GAIN>|<MAX GAIN>|<GAIN STEP>|<FPGA FREQ IN HZ>|<COMPLEX SAMPLE PAIRS PER PACKET>|<CSV LIST OF VALID ANTENNAS>[|<DEVICE SERIAL NUMBER>]
-- 
2.43.0


From d0d8f41f91f50a93d39d7639d3da6cac5625902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 30/36] fix: boripserver must answer DEST and ANTENNA in the
 form its client reads

---
 boripserver/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 213255a..68a4507 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -131,7 +131,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if len(args) > 0 {
 			return cli.sendResponse(cmd, resOK)
 		}
-		return cli.sendResponse(cmd, resOK, "default")
+		return cli.sendResponse(cmd, "default")
 	case cmdRate:
 		if cli.dev == nil {
 			return cli.sendResponse(cmd, resDevice, "no active device")
@@ -191,7 +191,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resFail, "failed to resolve address")
 		}
 		cli.dest = addr
-		return cli.sendResponse(cmd, resOK)
+		return cli.sendResponse(cmd, resOK, addr.String())
 	case cmdGo:
 		if cli.dest == nil {
 			return cli.sendResponse(cmd, resFail, "no DEST set")
-- 
2.43.0


From 096e5fa27de18f63d95a2ad678e7601682dc3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 31/36] fix: boripserver must send every part of a buffer, not
 the first one repeatedly

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 68a4507..4fbcd3f 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -380,7 +380,7 @@ func (cli *client) startStreaming() error {
 			bufOut[3] = uint8(seq >> 8)
 			seq++
 
-			dsp.Ui8toi16b(buf[:nValues], bufOut[headerSize:])
+			dsp.Ui8toi16b(buf[bufferOffset:bufferOffset+nValues], bufOut[headerSize:])
 
 			if _, err := conn.Write(bufOut[:headerSize+nValues*2]); err != nil {
 				// TODO: what to do if not "connection refused"?
-- 
2.43.0


From c029e9dda33d72a7020ec80a146b5d5ac571251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 32/36] fix: ax25 names PID 0xC3 as the TEXNET datagram
 protocol

---
 dsp/ax25/constants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/ax25/constants.go b/dsp/ax25/constants.go
index 11f5635..75dbe77 100644
--- a/dsp/ax25/constants.go
+++ b/dsp/ax25/constants.go
@@ -11,7 +11,7 @@ const (
 	CompressedTCPIP        PID = 0x06 // Compressed TCP/IP. RFC 1144
 	UncompressedTCPIP      PID = 0x07 // Uncompressed TCP/IP
 	SegmentationFragment   PID = 0x08 // Segmentation fragment
-	TEXNETDatagramProtocol PID = 0xc3 // TEXNET database protocol
+	TEXNETDatagramProtocol PID = 0xc3 // TEXNET datagram protocol
 	LinkQualityProtocol    PID = 0xc4 // Link Quality Protocol
 	AppleTalk              PID = 0xca // Appletalk
 	AppletalkARP           PID = 0xcb // Appletalk ARP
@@ -27,7 +27,7 @@ var pidToString = map[PID]string{
 	CompressedTCPIP:        "Compressed TCP/IP. RFC 1144",
 	UncompressedTCPIP:      "Uncompressed TCP/IP",
 	SegmentationFragment:   "Segmentation fragment",
-	TEXNETDatagramProtocol: "TEXNET database protocol",
+	TEXNETDatagramProtocol: "TEXNET datagram protocol",
 	LinkQualityProtocol:    "Link Quality Protocol",
 	AppleTalk:              "Appletalk",
 	AppletalkARP:           "Appletalk ARP",
-- 
2.43.0


From 5af4de90032479533f87cceb4a69bd4c150ad0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 33/36] fix: i32Rotate90Filter on ARM must negate, not invert

---
 dsp/util_arm.s | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index f24b795..f5e52dd 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -61,15 +61,15 @@ i32r90_loop:
 
 	// samples[i+1] = complex(-imag(samples[i+1]), real(samples[i+1]))
 	MOVW R0, R6
-	MVN  R1, R0
+	RSB  $0, R1, R0
 	MOVW R6, R1
 
 	// samples[i+2] = -samples[i+2]
-	MVN R2, R2
-	MVN R3, R3
+	RSB $0, R2, R2
+	RSB $0, R3, R3
 
 	// samples[i+3] = complex(imag(samples[i+3]), -real(samples[i+3]))
-	MVN       R4, R6
+	RSB       $0, R4, R6
 	MOVW      R5, R4
 	MOVW      R6, R5
 	MOVM.IA.W [R0-R5], (R8)
-- 
2.43.0


From cb422523266b8c5d806e7847ff514a3de8619a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 34/36] fix: i32Rotate90Filter on ARM must not run past slices
 that are not whole groups of 4 samples

---
 dsp/util_arm.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index f5e52dd..65c7290 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -46,7 +46,7 @@ r90_end:
 TEXT ·i32Rotate90FilterAsm(SB), NOSPLIT, $0
 	MOVW samples_len+8(FP), R7
 	MOVW samples_ptr+4(FP), R8
-	AND  $(~3), R7             // round down to nearest multiple of 4
+	AND  $(~7), R7             // round down to nearest multiple of 8 (4 samples)
 
 	TEQ $0, R7
 	BEQ i32r90_end
-- 
2.43.0


From 25baa5f27a737d5ef6a6b8ff7f2cbf3efe2f4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 35/36] fix: VAbsC64 on ARM must use the defined encoding of a
 vector stride of 2

---
 dsp/math32_arm.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index b773f55..a552cae 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -223,7 +223,7 @@ TEXT ·VAbsC64(SB), NOSPLIT, $0
 	// Set vector length to 4 and stride to 2
 	WORD $0xeef13a10            // vmrs r3, fpscr
 	BIC  $((7<<16)|(3<<20)), R3
-	ORR  $((3<<16)|(1<<20)), R3
+	ORR  $((3<<16)|(3<<20)), R3
 	WORD $0xeee13a10            // fmxr fpscr, r3
 
 vabsc64_vector_loop:
-- 
2.43.0


From 3449a954e3d7e6e9f7fbe84a625df6a201c89324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 36/36] fix: FastAtan2_2 on ARM must not return NaN when y/x
 overflows

---
 dsp/math32_arm.s | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index a552cae..d8cc22d 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -103,9 +103,12 @@ fatan22_6:
 	RET
 
 fatan22_5:
-	// pi2 - z/(z*z+0.28)
+	// pi2 - w/(1.0 + 0.28*w*w) where w = x/y (y/x may be too large for a float)
+	DIVF    F3, F6, F1
+	MULF    F1, F1, F2
 	MOVF    $0.28, F4
-	ADDF    F4, F2
+	MULF    F4, F2
+	ADDF    F0, F2
 	DIVF    F2, F1, F2
 	MOVF    halfPi, F1
 	SUBF    F2, F1, F2
-- 
2.43.0

