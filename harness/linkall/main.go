// Command linkall uses every exported routine and method of the library, so that linking it proves
// that none of them lacks an implementation on the target architecture.
package main

import (
	"fmt"
	"reflect"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
)

var sink = []any{
	(*dsp.BiQuadFilter).Filter,
	(*dsp.BiQuadFilter).FilterF32,
	(*dsp.ComplexGoertzel).Complex,
	(*dsp.ComplexGoertzel).Feed,
	(*dsp.ComplexGoertzel).Magnitude,
	(*dsp.ComplexGoertzel).Reset,
	(*dsp.ComplexIIRFilter).Filter,
	(*dsp.ComplexIIRFilter32).Filter,
	(*dsp.DCFilter).Filter,
	(*dsp.DCFilter).FilterOne,
	(*dsp.DCFilter32).Filter,
	(*dsp.DCFilter32).FilterOne,
	(*dsp.FMDemodFilter).Demodulate,
	(*dsp.Goertzel).Complex,
	(*dsp.Goertzel).Feed,
	(*dsp.Goertzel).Magnitude,
	(*dsp.Goertzel).Reset,
	(*dsp.Goertzel32).Complex,
	(*dsp.Goertzel32).Feed,
	(*dsp.Goertzel32).Magnitude,
	(*dsp.Goertzel32).Reset,
	(*dsp.I32Rotate90Filter).Filter,
	(*dsp.IIRFilter).Filter,
	(*dsp.LowPassDownsampleComplexFilter).Filter,
	(*dsp.LowPassDownsampleRationalFilter).Filter,
	(*dsp.Rotate90Filter).Filter,
	(*dsp.SDFT).Filter,
	(*dsp.SDFT32).Filter,
	dsp.AllPassBiQuadFilter,
	dsp.Atan2LUT,
	dsp.BlackmanWindow,
	dsp.BlackmanWindowF32,
	dsp.C64toi8,
	dsp.Conj32,
	dsp.F32Tof32ble,
	dsp.F32toi16,
	dsp.F32toi16ble,
	dsp.FastAtan2,
	dsp.FastAtan2Fixed,
	dsp.FastAtan2_2,
	dsp.FastPhase32,
	dsp.HammingWindow,
	dsp.HammingWindowF32,
	dsp.HanningWindow,
	dsp.HanningWindowF32,
	dsp.Hermite4p3o,
	dsp.Hermite4p3oF32,
	dsp.HighShelfBiQuadFilter,
	dsp.I16ToBLE,
	dsp.I16bleToF32,
	dsp.I16bleToF64,
	dsp.I32bleToF32,
	dsp.I8toc64,
	dsp.I8tof32,
	dsp.Linear,
	dsp.LinearF32,
	dsp.LowShelfBiQuadFilter,
	dsp.NewBandPassConstantPeakGainBiQuadFilter,
	dsp.NewBandPassConstantSkirtGainBiQuadFilter,
	dsp.NewComplexGoertzel,
	dsp.NewComplexIIRFilter,
	dsp.NewComplexIIRFilter32,
	dsp.NewDCFilter,
	dsp.NewDCFilter32,
	dsp.NewGoertzel,
	dsp.NewGoertzel32,
	dsp.NewHighPassBiQuadFilter,
	dsp.NewIIRFilter,
	dsp.NewLowPassBiQuadFilter,
	dsp.NewSDFT,
	dsp.NewSDFT32,
	dsp.NotchBiQuadFilter,
	dsp.NuttallWindow,
	dsp.NuttallWindowF32,
	dsp.Optimal2x4p4o,
	dsp.Optimal2x4p4oF32,
	dsp.Optimal2x6p5o,
	dsp.Optimal2x6p5oF32,
	dsp.PeakingEQBiQuadFilter,
	dsp.Phase32,
	dsp.PolarDiscriminator,
	dsp.PolarDiscriminator32,
	dsp.TriangleWindow,
	dsp.TriangleWindowF32,
	dsp.Ui8toc64,
	dsp.Ui8tof32,
	dsp.Ui8toi16,
	dsp.Ui8toi16b,
	dsp.VAbsC64,
	dsp.VAddC64,
	dsp.VAddF32,
	dsp.VMaxF32,
	dsp.VMinF32,
	dsp.VMulC64,
	dsp.VMulC64xF32,
	dsp.VScaleC64,
	dsp.VScaleF32,
	(*ax25.AX25).Feed,
	(ax25.Address).String,
	(ax25.FrameType).String,
	(ax25.PID).String,
	(ax25.SupervisoryType).String,
	(ax25.UnnumberedType).String,
	ax25.NewDecoder,
	(*dtmf.DTMF).Feed,
	dtmf.New,
	dtmf.NewStandard,
	(*borip.BorIP).Antenna,
	(*borip.BorIP).Close,
	(*borip.BorIP).Destination,
	(*borip.BorIP).Device,
	(*borip.BorIP).Frequency,
	(*borip.BorIP).Gain,
	(*borip.BorIP).Go,
	(*borip.BorIP).HeaderEnabled,
	(*borip.BorIP).Rate,
	(*borip.BorIP).SelectDevice,
	(*borip.BorIP).SetAntenna,
	(*borip.BorIP).SetDestination,
	(*borip.BorIP).SetFrequency,
	(*borip.BorIP).SetGain,
	(*borip.BorIP).SetHeaderEnabled,
	(*borip.BorIP).SetRate,
	(*borip.BorIP).Stop,
	(*borip.PacketReader).Header,
	(*borip.PacketReader).ReadSamples,
	(borip.ErrResponse).Error,
	borip.Dial,
	borip.NewPacketReader,
}

func main() {
	for _, f := range sink {
		fmt.Println(reflect.TypeOf(f))
	}
}
